// Languages, routes, the browser, apps and their logs, events, and the substitutes a client may provide.
import { M } from '../core.mjs'
import { PKG, SEVERE, WARNING, appLog, commandsApp, gizmo, incubateApp, logged } from './kit.mjs'

const NAME = /[A-Za-z0-9-]/
const LANG = /[A-Za-z-]/

/** v is built from (a term containing) x */
/** the parts of one text stand in another, the first and last perhaps within longer pieces */
function within(I, ps, xs) {
	const n = xs.length
	return ps.some((_, i) => i + n <= ps.length && xs.every((x, j) => {
		const p = ps[i + j]
		if (typeof p !== 'string' || typeof x !== 'string') return p === x
		return j === 0 && j === n - 1 ? p.includes(x) : j === 0 ? p.endsWith(x) : j === n - 1 ? p.startsWith(x) : p === x
	}))
}
function mentions(I, v, x, depth = 0) {
	v = I.resolve(v)
	if (I.eq3(v, x) === true) return true
	if (!I.isSym(v) || depth > 12) return false
	if (v.op === 'str' && I.isSym(x) && x.op === 'str' && within(I, v.args.map(I.resolve), x.args.map(I.resolve))) return true
	return v.args.some(a => a !== undefined && (I.isSym(a) || typeof a !== 'object') && mentions(I, a, x, depth + 1))
}
/** the random bits that tell apart what two evaluations of a term may give: 52 a number, 122 a uuid, none a clock, no more than its characters hold */
function entropy(I, v, draws) {
	const bits = new Map()
	const B36 = Math.log2(36)
	const uuid = q => q.draws.size > 0 && [...q.draws].every(d => bits.get(d) === 122)
	/** the digits of a uuid; "0." and the digits of a number drawn; a clock in base 36 takes eight characters */
	const chars = q => q.len ?? (uuid(q) ? 32 : q.draws.size ? 52 / B36 + 2 : 8)
	const perChar = q => (uuid(q) ? 122 / 32 : B36)
	/** { draws, cap, len: characters it surely has (or undefined), parts of a concatenation } */
	const go = (v, depth) => {
		v = I.resolve(v)
		const d = draws.find(d => I.eq3(v, d) === true)
		if (d !== undefined) {
			bits.set(d, I.maskOf(d) === M.NUM ? 52 : 122)
			return { cap: bits.get(d), draws: new Set([d]), len: I.maskOf(d) === M.NUM ? undefined : 36 }
		}
		if (typeof v === 'string') return { cap: 0, draws: new Set(), len: v.length }
		if (!I.isSym(v) || depth > 12) return { cap: 0, draws: new Set() }
		const parts = v.args.filter(a => I.isSym(a) || (v.op === 'str' && typeof a === 'string')).map(a => go(a, depth + 1))
		const all = new Set(parts.flatMap(p => [...p.draws]))
		const hold = ps => Math.min(ps.reduce((n, p) => n + p.cap, 0), [...new Set(ps.flatMap(p => [...p.draws]))].reduce((n, d) => n + bits.get(d), 0))
		let cap = hold(parts)
		const [, a, b] = v.args
		const cut = { 'String.substring': [a ?? 0, b], 'String.slice': [a ?? 0, b], 'String.substr': [a ?? 0, typeof b === 'number' ? (a ?? 0) + b : undefined], 'String.charAt': [a ?? 0, (a ?? 0) + 1], 'String.at': [a ?? 0, a === -1 ? undefined : (a ?? 0) + 1] }[v.op]
		if (cut && typeof cut[0] === 'number' && (cut[1] === undefined || typeof cut[1] === 'number')) {
			const src = parts[0]
			const ps = src?.parts ?? (src ? [src] : [])
			// characters of each part, in turn, that stay: those known to stand before the cut do not count
			if (cut[0] >= 0 && !(cut[1] < 0)) {
				let at = 0
				let n = 0
				for (const q of ps) {
					const len = chars(q)
					const [from, to] = [Math.max(cut[0], at), Math.min(cut[1] ?? Infinity, at + len)]
					if (to > from && q.draws.size) n += Math.min(q.cap, (to - from) * perChar(q))
					at += len
				}
				cap = Math.min(cap, n)
			} else {
				const n = cut[0] < 0 ? (cut[1] === undefined ? -cut[0] : cut[1] < 0 ? cut[1] - cut[0] : undefined) : undefined
				if (n !== undefined) cap = Math.min(cap, Math.max(n, 0) * B36)
			}
			const total = ps.reduce((n, q) => n + chars(q), 0)
			return { cap, draws: all, len: cut[0] >= 0 && !(cut[1] < 0) ? Math.max(Math.min(cut[1] ?? Infinity, total) - cut[0], 0) : undefined }
		}
		// a number scaled to n whole values, or one of n characters
		const whole = x => {
			x = I.resolve(x)
			if (!I.isSym(x) || !(/^Math\.(floor|trunc|round|ceil)$/.test(x.op) || /^(\||>>|>>>)$/.test(x.op))) return undefined
			const y = I.resolve(x.args[0])
			const k = I.isSym(y) && y.op === '*' ? y.args.map(I.resolve).find(n => typeof n === 'number') : undefined
			return k && Math.log2(Math.abs(k) + 1)
		}
		if (whole(v) !== undefined) cap = Math.min(cap, whole(v))
		const from = I.resolve(v.args[0])
		if (/^(String\.)?charAt$/.test(v.op) && typeof from === 'string') return { cap: Math.min(cap, Math.log2(new Set(from).size || 1)), draws: all, len: 1 }
		if (v.op === 'str') return { cap, draws: all, parts: parts.flatMap(p => p.parts ?? [p]), len: parts.every(p => p.len !== undefined) ? parts.reduce((n, p) => n + p.len, 0) : undefined }
		return { cap, draws: all }
	}
	return go(v, 0).cap
}
const handlers = (I, n) => Array.from({ length: n }, (_, i) => I.fn(`handler ${i + 1}`, function* () {}))
const writes = (I, m) => I.since(m, e => e.t === 'storage' && e.op !== 'get')

// ------------------------------------------------------------------ languages

function* i18nApp(I, { language, commands = false, keyboard = true, more = [] } = {}) {
	const gs = []
	if (commands && keyboard) gs.push(yield* gizmo(I, 'keyboard', 'keyboardGizmoFn'))
	if (commands) gs.push(yield* gizmo(I, 'commands', 'commandsGizmoFn'))
	gs.push(yield* gizmo(I, 'i18n', 'i18nGizmoFn', I.obj({ language })), ...more)
	return yield* incubateApp(I, gs)
}
function* browserI18nApp(I, { name, storage, language, commands = false, keyboard = true } = {}) {
	const gs = []
	if (commands && keyboard) gs.push(yield* gizmo(I, 'keyboard', 'keyboardGizmoFn'))
	if (commands) gs.push(yield* gizmo(I, 'commands', 'commandsGizmoFn'))
	gs.push(yield* gizmo(I, 'browser', 'browserTestGizmoFn', I.obj({ localStorage: storage, navigator: I.obj({ language, languages: I.arr(['other', language]) }) }), './testing'))
	gs.push(yield* I.imp(PKG('browser-i18n'), 'browserI18nGizmo'))
	return yield* incubateApp(I, gs, { name })
}
const I18NS = ['i18n', 'browser-i18n']
function* anyI18n(I, which, language, o = {}) {
	if (which === 'i18n') return yield* i18nApp(I, { language, ...o })
	return yield* browserI18nApp(I, { name: I.word('app name', NAME), storage: I.storage('the storage'), language, ...o })
}
export const I01 = {
	theorems: [
		...I18NS.map(which => ({
			name: `the language follows the last one set, and every handler learns of it [${which}]`,
			stages: [
				function* (I) {
					const l0 = I.atom('initial language', M.STR)
					const app = yield* anyI18n(I, which, l0)
					const i18n = yield* I.get(app, 'i18n')
					I.eq(yield* I.m(i18n, 'getLanguage'), l0, 'at first the language is the initial one')
					return { i18n, cur: l0, hs: [] }
				},
				...[1, 2, 3].map(
					i =>
						function* (I, p) {
							const hs = p.hs.slice()
							const n = I.choose(['none', 'one', 'two'], `handlers added before change ${i}`)
							for (let j = 0; j < n; j++) {
								let seen
								const x = { n: hs.length }
								x.h = I.fn('handler', function* () {
									x.seen = yield* I.m(p.i18n, 'getLanguage')
								})
								yield* I.m(p.i18n, 'languageChanged', x.h)
								hs.push(x)
							}
							const next = I.atom(`language ${i}`, M.STR)
							const m = I.mark()
							yield* I.m(p.i18n, 'setLanguage', next)
							I.eq(yield* I.m(p.i18n, 'getLanguage'), next, 'the language is the one set')
							const cs = I.calls(m, hs.map(x => x.h))
							if (I.listEq(cs.map(c => c.fn), hs.map(x => x.h), 'every handler runs once per change, in the order added'))
								for (const c of cs) {
									I.eq(c.args[0], next, 'a handler receives the new language')
									I.eq(c.args[1], p.cur, 'a handler receives the language before')
								}
							for (const x of hs) if (x.seen !== undefined) I.eq(x.seen, next, 'a handler that asks for the language sees the new one')
							return { ...p, cur: next, hs: hs.map(x => ({ h: x.h, n: x.n })) }
						}
				)
			]
		})),
		...I18NS.map(which => ({
			name: `a handler may set the language itself, or add a handler [${which}]`,
			stages: [
				function* (I) {
					const [l0, l1, l2] = ['initial language', 'language', 'language set by a handler'].map(n => I.atom(n, M.STR))
					const i18n = yield* I.get(yield* anyI18n(I, which, l0), 'i18n')
					const does = I.pick(['sets the language', 'adds a handler'], 'a handler')
					const at = I.pick(['0', '1', '2'], 'it is handler number')
					const late = I.fn('handler added late', function* () {})
					let done = false
					const hs = [0, 1, 2].map(i =>
						I.fn(`handler ${i + 1}`, function* () {
							if (String(i) !== at || done) return
							done = true
							if (does === 'adds a handler') yield* I.m(i18n, 'languageChanged', late)
							else yield* I.m(i18n, 'setLanguage', l2)
						})
					)
					for (const h of hs) yield* I.m(i18n, 'languageChanged', h)
					const m = I.mark()
					yield* I.m(i18n, 'setLanguage', l1)
					const cs = I.calls(m, hs)
					const of = l => cs.filter(c => I.eq3(c.args[0], l) === true)
					I.bagEq(of(l1).map(c => c.fn), hs, 'every handler learns once of the change')
					for (const c of of(l1)) I.eq(c.args[1], l0, 'with the language before')
					if (does === 'adds a handler') {
						I.eq(yield* I.m(i18n, 'getLanguage'), l1, 'the language is the one set')
						const m2 = I.mark()
						yield* I.m(i18n, 'setLanguage', l2)
						I.listEq(I.calls(m2, [...hs, late]).map(c => c.fn), [...hs, late], 'the handler added takes part from the next change on')
						return
					}
					I.listEq(of(l2).map(c => c.fn), hs, 'and of the change a handler made, in order')
					for (const c of of(l2)) I.eq(c.args[1], l1, 'with the language before that')
					I.eq(yield* I.m(i18n, 'getLanguage'), l2, 'the language set last stays')
				}
			]
		})),
		...I18NS.map(which => ({
			name: `apps do not share their language [${which}]`,
			stages: [
				function* (I) {
					const [la, lb, l] = [I.atom('language of a', M.STR), I.atom('language of b', M.STR), I.atom('another language', M.STR)]
					const a = yield* I.get(yield* anyI18n(I, which, la), 'i18n')
					const b = yield* I.get(yield* anyI18n(I, which, lb), 'i18n')
					const [ha, hb] = handlers(I, 2)
					yield* I.m(a, 'languageChanged', ha)
					yield* I.m(b, 'languageChanged', hb)
					const first = I.pick(['a', 'b'], 'changed') === 'a'
					const m = I.mark()
					yield* I.m(first ? a : b, 'setLanguage', l)
					I.eq(yield* I.m(a, 'getLanguage'), first ? l : la, 'changing the language of one app keeps that of the other')
					I.eq(yield* I.m(b, 'getLanguage'), first ? lb : l, 'changing the language of one app keeps that of the other')
					I.listEq(I.calls(m, [ha, hb]).map(c => c.fn), [first ? ha : hb], 'only the handlers of that app are told')
				}
			]
		}))
	]
}
export const I02 = {
	theorems: [
		{
			name: 'the language outlives the app, until it is cleared',
			stages: [
				function* (I) {
					const storage = I.storage('the storage')
					const name = I.word('app name', NAME)
					const nav = I.word('language of the browser', LANG)
					const app = yield* browserI18nApp(I, { name, storage, language: nav })
					const i18n = yield* I.get(app, 'i18n')
					I.eq(yield* I.m(i18n, 'getLanguage'), nav, 'at first the language is that of the browser')
					return { storage, name, i18n, nav, cur: nav }
				},
				...[1, 2, 3].map(
					i =>
						function* (I, p) {
							const op = I.pick(i === 1 ? ['set', 'set to the empty string', 'clear'] : ['set', 'set to the empty string', 'set to that of the browser', 'clear', 'none'], `operation ${i}`)
							let cur = p.cur
							let stored = p.stored
							const h = I.fn('handler', function* () {})
							if (op === 'none') return p
							if (op === 'clear') {
								yield* I.m(p.i18n, 'clearLanguage')
								cur = p.nav
								stored = undefined
							} else {
								cur = op === 'set' ? I.word(`language ${i}`, LANG) : op === 'set to the empty string' ? '' : p.nav
								yield* I.m(p.i18n, 'setLanguage', cur)
								stored = cur
							}
							I.eq(yield* I.m(p.i18n, 'getLanguage'), cur, 'clearing falls back to the language of the browser, setting takes the language set')
							return { ...p, cur, stored }
						}
				),
				function* (I, p) {
					const nav2 = I.word('later language of the browser', LANG)
					const again = yield* I.get(yield* browserI18nApp(I, { name: p.name, storage: p.storage, language: nav2 }), 'i18n')
					I.eq(yield* I.m(again, 'getLanguage'), p.stored ?? nav2, 'an app created later under the same name starts with the language set last, and with that of the browser when it was cleared or never set')
					const other = I.word('other name', NAME)
					I.assumeNe(other, p.name)
					const o = yield* I.get(yield* browserI18nApp(I, { name: other, storage: p.storage, language: nav2 }), 'i18n')
					I.eq(yield* I.m(o, 'getLanguage'), nav2, 'an app of another name does not')
					const then = I.pick(['clear', 'set', 'neither'], 'the later app')
					if (then === 'neither') return
					const h = I.fn('handler', function* () {})
					yield* I.m(again, 'languageChanged', h)
					const l = I.word('another language', LANG)
					const before = p.stored ?? nav2
					const m = I.mark()
					if (then === 'clear') yield* I.m(again, 'clearLanguage')
					else yield* I.m(again, 'setLanguage', l)
					const now = then === 'clear' ? nav2 : l
					I.eq(yield* I.m(again, 'getLanguage'), now, 'the later app can change and clear it in turn')
					for (const c of I.calls(m, h)) I.listEq(c.args.slice(0, 2), [now, before], 'its handlers receive the language now and before')
					const nav3 = I.word('latest language of the browser', LANG)
					const third = yield* I.get(yield* browserI18nApp(I, { name: p.name, storage: p.storage, language: nav3 }), 'i18n')
					I.eq(yield* I.m(third, 'getLanguage'), then === 'clear' ? nav3 : l, 'and so does the app after it')
				}
			]
		},
		{
			name: 'the language of an app is its own, whatever the apps are called',
			stages: [
				function* (I) {
					const storage = I.storage('the storage')
					const names = ['a', 'A', 'a:b', 'a/b', 'b', 'a b', ' a', 'a/language', 'a.b', '@a/b', '', '__proto__', '0', 'ä', 'a%2Fb']
					const order = I.pick(['as listed', 'reversed'], 'order') === 'reversed' ? names.slice().reverse() : names
					const apps = []
					for (const name of order) {
						const i18n = yield* I.get(yield* browserI18nApp(I, { name, storage, language: 'language of the browser' }), 'i18n')
						I.eq(yield* I.m(i18n, 'getLanguage'), 'language of the browser', 'the language set in another app is not taken')
						yield* I.m(i18n, 'setLanguage', `language of ${name}`)
						apps.push({ name, i18n })
					}
					for (const { name, i18n } of apps) {
						I.eq(yield* I.m(i18n, 'getLanguage'), `language of ${name}`, 'setting the language of another app changes nothing')
						const again = yield* I.get(yield* browserI18nApp(I, { name, storage, language: 'language of the browser' }), 'i18n')
						I.eq(yield* I.m(again, 'getLanguage'), `language of ${name}`, 'the language set last')
					}
					const cleared = I.pick(['first', 'middle', 'last'], 'cleared app')
					const c = apps[{ first: 0, middle: 7, last: apps.length - 1 }[cleared]]
					yield* I.m(c.i18n, 'clearLanguage')
					for (const { name } of apps) {
						const again = yield* I.get(yield* browserI18nApp(I, { name, storage, language: 'language of the browser' }), 'i18n')
						I.eq(yield* I.m(again, 'getLanguage'), name === c.name ? 'language of the browser' : `language of ${name}`, 'clearing the language of another app changes nothing')
					}
				}
			]
		},
		{
			name: 'nothing is stored before a language is set, and no other entry is ever touched',
			stages: [
				function* (I) {
					const k = I.word('plain key', NAME)
					const v = I.str('foreign value')
					const storage = I.storage('the storage', { entries: [[k, v]] })
					const m = I.mark()
					const i18n = yield* I.get(yield* browserI18nApp(I, { name: I.word('app name', NAME), storage, language: I.word('language of the browser', LANG) }), 'i18n')
					I.ok(writes(I, m).length === 0, 'creating the app stores nothing', '')
					yield* I.m(i18n, 'getLanguage')
					I.ok(writes(I, m).length === 0, 'reading the language stores nothing', '')
					const op = I.pick(['set', 'clear', 'set and clear'], 'operation')
					if (op !== 'clear') yield* I.m(i18n, 'setLanguage', I.word('language', LANG))
					if (op !== 'set') yield* I.m(i18n, 'clearLanguage')
					I.eq(yield* I.m(storage, 'getItem', k), v, 'other entries stay as they are')
				}
			]
		},
		{
			name: 'clearing tells the handlers that the language is that of the browser again',
			stages: [
				function* (I) {
					const nav = I.atom('language of the browser', M.STR)
					const l = I.atom('language', M.STR)
					const i18n = yield* I.get(yield* browserI18nApp(I, { name: I.word('app name', NAME), storage: I.storage('the storage'), language: nav }), 'i18n')
					yield* I.m(i18n, 'setLanguage', l)
					const [h] = handlers(I, 1)
					yield* I.m(i18n, 'languageChanged', h)
					const m = I.mark()
					yield* I.m(i18n, 'clearLanguage')
					const c = I.calls(m, h)
					if (I.ok(c.length === 1, 'the handler runs once', `${c.length} times`)) {
						I.eq(c[0].args[0], nav, 'with the language of the browser')
						I.eq(c[0].args[1], l, 'and the language before')
					}
				}
			]
		}
	]
}
export const I03 = {
	theorems: I18NS.map(which => ({
		name: `the set language command sets the language of its app [${which}]`,
		stages: [
			function* (I) {
				const l0 = I.atom('initial language', M.STR)
				const storage = I.storage('the storage')
				const name = I.word('app name', NAME)
				const o = { language: l0, commands: true, keyboard: I.pick(['with', 'without'], 'a keyboard') === 'with' }
				const app = which === 'i18n' ? yield* i18nApp(I, o) : yield* browserI18nApp(I, { name, storage, ...o })
				const i18n = yield* I.get(app, 'i18n')
				const cmd = yield* I.imp(PKG('i18n'), 'setLanguageCommand')
				const id = yield* I.get(cmd, 'id')
				const cs = yield* I.get(app, 'commands', 'contributions')
				if (I.eq(yield* I.m(cs, 'has', id), true, 'the command is contributed to the app')) {
					const title = yield* I.get(yield* I.m(cs, 'get'), id)
					I.ok(I.truthy(yield* I.get(title, 'title')), 'with a title', '')
				}
				const [h] = handlers(I, 1)
				yield* I.m(i18n, 'languageChanged', h)
				const l = I.pick(['a language', 'the empty string', 'the language so far'], 'set to')
				const next = l === 'a language' ? I.atom('language', M.STR) : l === 'the empty string' ? '' : l0
				yield* checkSetLanguage(I, { cmd, app, i18n, id, h, l: next, l0 })
				if (which === 'browser-i18n') {
					const again = yield* I.get(yield* browserI18nApp(I, { name, storage, language: l0 }), 'i18n')
					I.eq(yield* I.m(again, 'getLanguage'), next, 'and it is kept for the next app of that name')
				}
				const l2 = I.atom('a second language', M.STR)
				yield* checkSetLanguage(I, { cmd, app, i18n, id, h, l: l2, l0: next })
			}
		]
	})).concat(I18NS.map(which => ({
		name: `the set language command works beside what the app has already [${which}]`,
		stages: [
			function* (I) {
				const cmd = yield* I.imp(PKG('i18n'), 'setLanguageCommand')
				const id = yield* I.get(cmd, 'id')
				const had = I.pick(['a contribution of that command', 'a handler of that command', 'other contributions and handlers', 'a key binding of that command'], 'the app has')
				const l0 = I.atom('initial language', M.STR)
				const storage = I.storage('the storage')
				const title = I.atom('title given', M.STR)
				const other = I.fn('another handler', function* () {})
				const opts = had === 'a contribution of that command' ? I.obj({ contributions: I.arr([I.obj({ id, title, description: I.atom('description', M.STR) })]) }) : had.startsWith('other') ? I.obj({ contributions: I.arr([I.obj({ id: 'other.command', title, description: title })]), handlers: I.obj({ 'other.command': other }) }) : had === 'a handler of that command' ? I.obj({ handlers: I.obj({ [id]: other }) }) : undefined
				const kopts = had.startsWith('a key') ? I.obj({ keyBindingContributions: I.arr([I.obj({ id, key: 'ctrl+l', mac: 'cmd+l' })]) }) : undefined
				const gs = [yield* gizmo(I, 'keyboard', 'keyboardGizmoFn', kopts), yield* gizmo(I, 'commands', 'commandsGizmoFn', opts)]
				if (which === 'i18n') gs.push(yield* gizmo(I, 'i18n', 'i18nGizmoFn', I.obj({ language: l0 })))
				else gs.push(yield* gizmo(I, 'browser', 'browserTestGizmoFn', I.obj({ localStorage: storage, navigator: I.obj({ language: l0 }) }), './testing'), yield* I.imp(PKG('browser-i18n'), 'browserI18nGizmo'))
				const app = yield* incubateApp(I, gs)
				const i18n = yield* I.get(app, 'i18n')
				const [h] = handlers(I, 1)
				yield* I.m(i18n, 'languageChanged', h)
				I.eq(yield* I.m(yield* I.get(app, 'commands', 'contributions'), 'has', id), true, 'the command is contributed to the app')
				yield* checkSetLanguage(I, { cmd, app, i18n, id, h, l: I.atom('language', M.STR), l0 })
				if (had.startsWith('other')) {
					const m = I.mark()
					yield* I.m(yield* I.get(app, 'commands', 'handlers'), 'invoke', 'other.command')
					I.ok(I.calls(m, other).length === 1, 'other commands work as before', '')
				}
			}
		]
	})))
}
/** by the command or by its id, the language of the app becomes l */
function* checkSetLanguage(I, { cmd, app, i18n, id, h, l, l0 }) {
				const m = I.mark()
				if (I.pick(['the command', 'invoke()'], 'by') === 'the command') yield* I.call(cmd, l)
				else yield* I.m(yield* I.get(app, 'commands', 'handlers'), 'invoke', id, l)
				I.eq(yield* I.m(i18n, 'getLanguage'), l, 'the language of the app is the one given')
				const c = I.calls(m, h)
				if (I.ok(c.length === 1, 'the handlers are told once', `${c.length} times`)) {
					I.eq(c[0].args[0], l, 'with the new language')
					I.eq(c[0].args[1], l0, 'and the language before')
				}
}

// ------------------------------------------------------------------ routes

function* routesApp(I) {
	return yield* incubateApp(I, [yield* I.imp(PKG('routes'), 'routesGizmo')])
}
/** navigating to route runs want (a handler or null) and nothing else of all */
function* checkNavigate(I, app, route, want, all, what) {
	const routes = yield* I.get(app, 'routes')
	const m = I.mark()
	if (route === undefined) yield* I.m(routes, 'navigate')
	else yield* I.m(routes, 'navigate', route)
	const cs = I.calls(m, all)
	I.listEq(cs.map(c => c.fn), want ? [want] : [], `${what}: navigating runs exactly the handler of that route`)
	if (want) I.ok(I.logs(m, WARNING).length === 0, `${what}: navigating to a registered route reports no problem`, '')
	else yield* logged(I, m, app, SEVERE, `${what}: navigating to a route that is not registered reports an error in the app log`)
}
const ROUTE_OPS = ['register 1', 'register 2', 'register 1 with its first handler', 'unregister the first', 'unregister the last', 'clear']
function* routeOp(I, p, op) {
	const routes = yield* I.get(p.app, 'routes')
	const regs = p.regs.slice()
	const model = new Map(p.model)
	const register = function* (route, h = I.fn(`handler ${regs.length + 1}`, function* () {})) {
		const m = I.mark()
		const off = yield* I.m(routes, 'register', route, h)
		const taken = model.has(route)
		const rec = { route, h, off, taken }
		if (taken) yield* logged(I, m, p.app, SEVERE, 'registering a route that is taken reports an error in the app log')
		else {
			model.set(route, rec)
			I.ok(I.logs(m, WARNING).length === 0, 'registering a free route reports no problem', '')
		}
		regs.push(rec)
	}
	const unregister = function* (r) {
		if (!r) I.dead()
		yield* I.call(r.off)
		if (model.get(r.route) === r) model.delete(r.route)
	}
	switch (op) {
		case 'register 1':
		case 'register 1 with its first handler':
			yield* register(p.r1, op === 'register 1' ? undefined : regs.find(r => r.route === p.r1)?.h ?? I.dead())
			break
		case 'register 2':
			yield* register(p.r2)
			break
		case 'unregister the first':
			yield* unregister(regs[0])
			break
		case 'unregister the last':
			yield* unregister(regs.at(-1))
			break
		case 'clear':
			yield* I.m(routes, 'clearRoutes')
			model.clear()
			break
	}
	return { ...p, regs, model }
}
/** any string is a route: the empty one and those spelled like object members too */
function anyRoute(I, name) {
	const s = I.pick(['a word', '', '/', 'constructor', '__proto__'], name)
	return s === 'a word' ? I.key(name) : s
}
function* routeStart(I) {
	return { app: yield* routesApp(I), r1: anyRoute(I, 'route 1'), r2: I.key('route 2'), regs: [], model: new Map() }
}
const opStages = (n, ops) => Array.from({ length: n }, (_, i) => function* (I, p) {
	return yield* routeOp(I, p, I.pick(i === 0 ? ops.filter(o => o.startsWith('register') && !o.includes('first')) : ops, `operation ${i + 1}`))
})
const ODD_ROUTES = ['/a', '/a/', 'a', '/A', '/a?b', '/a#b', '/a/b', '//a', ' /a', '/:id', '*', '/a%20', '/', '', '//', '#', '0', 'undefined', 'null']
export const R01 = {
	theorems: [
		{
			name: 'navigating runs the handler of the route',
			stages: [
				routeStart,
				...opStages(3, ['register 1', 'register 2', 'unregister the last', 'clear']),
				function* (I, p) {
					const all = p.regs.map(r => r.h)
					const [route, what] = I.pick(['route 1', 'route 2', 'an unknown route'], 'navigate to') === 'route 1' ? [p.r1, 'route 1'] : I.pick(['route 2', 'unknown'], 'navigate to') === 'route 2' ? [p.r2, 'route 2'] : [I.key('unknown route'), 'an unknown route']
					yield* checkNavigate(I, p.app, route, p.model.get(route)?.h ?? null, all, what)
				}
			]
		},
		{
			name: 'a route spelled like an object member is a route like any other',
			stages: [
				function* (I) {
					const app = yield* routesApp(I)
					const k = I.pick(['toString', 'constructor', '__proto__', 'hasOwnProperty'], 'route')
					if (I.pick(['at first', 'after clearing'], 'when') === 'after clearing') yield* I.m(yield* I.get(app, 'routes'), 'clearRoutes')
					yield* checkNavigate(I, app, k, null, [], 'not registered')
					I.eq(yield* I.m(yield* I.get(app, 'routes'), 'hasRoute', k), false, 'it is not registered at first')
					const [h] = handlers(I, 1)
					const off = yield* I.m(yield* I.get(app, 'routes'), 'register', k, h)
					yield* checkNavigate(I, app, k, h, [h], 'registered')
					yield* I.call(off)
					yield* checkNavigate(I, app, k, null, [h], 'unregistered')
				}
			]
		},
		{
			name: 'routes that look alike are different routes',
			stages: [
				function* (I) {
					const app = yield* routesApp(I)
					const routes = yield* I.get(app, 'routes')
					const i = I.choose(ODD_ROUTES, 'registered')
					const [h, g] = handlers(I, 2)
					const off = yield* I.m(routes, 'register', ODD_ROUTES[i], h)
					yield* checkNavigate(I, app, ODD_ROUTES[i], h, [h], 'registered')
					for (const r of ODD_ROUTES) {
						if (r === ODD_ROUTES[i]) continue
						I.eq(yield* I.m(routes, 'hasRoute', r), false, `${JSON.stringify(r)} is another route`)
						yield* checkNavigate(I, app, r, null, [h], `${JSON.stringify(r)} is another route`)
					}
					const other = ODD_ROUTES[(i + 1) % ODD_ROUTES.length]
					yield* I.m(routes, 'register', other, g)
					yield* checkNavigate(I, app, other, g, [h, g], `${JSON.stringify(other)} beside it`)
					yield* checkNavigate(I, app, ODD_ROUTES[i], h, [h, g], 'the first one still')
					yield* I.call(off)
					yield* checkNavigate(I, app, ODD_ROUTES[i], null, [h, g], 'the first one unregistered')
					yield* checkNavigate(I, app, other, g, [h, g], 'the other one still')
				}
			]
		},
		{
			name: 'an app may have a great many routes',
			stages: [
				function* (I) {
					const app = yield* routesApp(I)
					const routes = yield* I.get(app, 'routes')
					const hs = handlers(I, 120)
					const offs = []
					for (let i = 0; i < hs.length; i++) offs.push(yield* I.m(routes, 'register', `/page/${i}`, hs[i]))
					const i = I.pick([0, 1, 60, 119], 'route')
					yield* checkNavigate(I, app, `/page/${i}`, hs[i], hs, 'one of many')
					yield* I.call(offs[i])
					yield* checkNavigate(I, app, `/page/${i}`, null, hs, 'unregistered')
					const j = I.pick([2, 61, 118], 'another')
					yield* checkNavigate(I, app, `/page/${j}`, hs[j], hs, 'another one of many')
				}
			]
		},
		{
			name: 'a handler runs as often as its route is navigated to, and may navigate, register and unregister itself',
			stages: [
				function* (I) {
					const app = yield* routesApp(I)
					const routes = yield* I.get(app, 'routes')
					const [r1, r2] = [anyRoute(I, 'route 1'), I.key('route 2')]
					const does = I.pick(['nothing', 'navigates on', 'unregisters itself', 'registers another', 'clears the routes', 'throws'], 'the handler')
					const err = I.atom('failure', M.OBJ)
					const [h2] = handlers(I, 1)
					let off
					const h1 = I.fn('handler', function* () {
						if (does === 'navigates on') yield* I.m(routes, 'navigate', r2)
						else if (does === 'unregisters itself') yield* I.call(off)
						else if (does === 'registers another') yield* I.m(routes, 'register', r2, h2)
						else if (does === 'clears the routes') yield* I.m(routes, 'clearRoutes')
						else if (does === 'throws') yield* I.throw(err)
					})
					off = yield* I.m(routes, 'register', r1, h1)
					if (does === 'navigates on') yield* I.m(routes, 'register', r2, h2)
					const m = I.mark()
					const r = yield* I.attempt(I.m(routes, 'navigate', r1))
					I.listEq(I.calls(m, [h1, h2]).map(c => c.fn), does === 'navigates on' ? [h1, h2] : [h1], 'the handler runs once, and where it navigates to after it')
					for (const c of I.calls(m, [h1, h2])) I.ok(c.args.length === 0, 'with no arguments', `${c.args.length}`)
					if (does !== 'throws') I.ok(!r.threw, 'navigating does not throw', '')
					const gone = does === 'unregisters itself' || does === 'clears the routes'
					I.eq(yield* I.m(routes, 'hasRoute', r1), !gone, 'afterwards it is registered unless its handler unregistered it')
					if (does === 'registers another') yield* checkNavigate(I, app, r2, h2, [h2], 'the route its handler registered')
					const m2 = I.mark()
					yield* I.attempt(I.m(routes, 'navigate', r1))
					const again = I.calls(m2, h1).length
					if (does === 'throws') {
						const m3 = I.mark()
						yield* I.m(routes, 'config', I.obj({ initialRoute: r1 }))
						yield* I.attempt(I.m(routes, 'navigate'))
						I.ok(I.calls(m3, h1).length === 1, 'a failure does not keep later navigation from working', `${I.calls(m3, h1).length} calls`)
						yield* I.m(routes, 'register', r2, h2)
						yield* checkNavigate(I, app, r2, h2, [h1, h2], 'a route registered after a failure')
					}
					if (does !== 'registers another') I.ok(again === (gone ? 0 : 1), 'navigating again runs it again, when it is registered', '')
				}
			]
		},
		{
			name: 'apps do not share their routes',
			stages: [
				function* (I) {
					const a = yield* routesApp(I)
					const b = yield* routesApp(I)
					const r = I.key('route')
					const [h, g] = handlers(I, 2)
					yield* I.m(yield* I.get(a, 'routes'), 'register', r, h)
					yield* checkNavigate(I, b, r, null, [h], 'in another app')
					yield* I.m(yield* I.get(b, 'routes'), 'register', r, g)
					yield* checkNavigate(I, a, r, h, [h, g], 'in the app it was registered')
					yield* I.m(yield* I.get(b, 'routes'), 'clearRoutes')
					yield* checkNavigate(I, a, r, h, [h, g], 'after the other app cleared its routes')
				}
			]
		}
	]
}
function* checkRoutes(I, p) {
	const routes = yield* I.get(p.app, 'routes')
	for (const [r, what] of [[p.r1, 'route 1'], [p.r2, 'route 2']]) {
		I.eq(yield* I.m(routes, 'hasRoute', r), p.model.has(r), `${what}: hasRoute() tells whether it is registered`)
		yield* checkNavigate(I, p.app, r, p.model.get(r)?.h ?? null, p.regs.map(x => x.h), what)
	}
}
export const R02 = {
	theorems: [
		{
			name: 'a route belongs to the handler registered first until that is unregistered or the routes are cleared',
			stages: [
				routeStart,
				...opStages(4, ROUTE_OPS),
				checkRoutes
			]
		},
		{
			name: 'whichever route is the initial one',
			stages: [
				function* (I) {
					const p = yield* routeStart(I)
					yield* I.m(yield* I.get(p.app, 'routes'), 'config', I.obj({ initialRoute: I.pick(['route 1', 'route 2'], 'initial') === 'route 1' ? p.r1 : p.r2 }))
					return p
				},
				...opStages(3, ROUTE_OPS),
				checkRoutes
			]
		},
		{
			name: 'one handler may serve several routes',
			stages: [
				function* (I) {
					const app = yield* routesApp(I)
					const routes = yield* I.get(app, 'routes')
					const [r1, r2] = [anyRoute(I, 'route 1'), I.key('route 2')]
					const [h] = handlers(I, 1)
					const offs = [yield* I.m(routes, 'register', r1, h), yield* I.m(routes, 'register', r2, h)]
					yield* checkNavigate(I, app, r1, h, [h], 'the first')
					yield* checkNavigate(I, app, r2, h, [h], 'the second')
					const i = I.choose(['the first', 'the second'], 'unregistered')
					yield* I.call(offs[i])
					yield* checkNavigate(I, app, [r1, r2][i], null, [h], 'unregistered')
					yield* checkNavigate(I, app, [r1, r2][1 - i], h, [h], 'the other route of that handler')
				}
			]
		}
	]
}
export const R03 = {
	theorems: [
		{
			name: 'navigating without a route goes to the initial route',
			stages: [
				routeStart,
				function* (I, p) {
					const routes = yield* I.get(p.app, 'routes')
					const [h1, h2, hd] = handlers(I, 3)
					yield* I.m(routes, 'register', p.r1, h1)
					yield* I.m(routes, 'register', p.r2, h2)
					const dflt = I.pick(['a handler of /', 'no handler of /'], 'default route') === 'a handler of /'
					if (dflt) yield* I.m(routes, 'register', '/', hd)
					const all = [h1, h2, hd]
					const atRoot = p.r1 === '/' ? h1 : dflt ? hd : null
					const n = I.choose(['never', 'to route 1', 'to route 1, then route 2', 'to an unknown route'], 'configured')
					if (n === 1 || n === 2) yield* I.m(routes, 'config', I.obj({ initialRoute: p.r1 }))
					if (n === 2) yield* I.m(routes, 'config', I.obj({ initialRoute: p.r2 }))
					if (n === 3) yield* I.m(routes, 'config', I.obj({ initialRoute: I.key('unknown route') }))
					if (n !== 0 && p.r1 !== '/' && I.pick(['nothing', 'configured to / again'], 'then') !== 'nothing') {
						yield* I.m(routes, 'config', I.obj({ initialRoute: '/' }))
						yield* checkNavigate(I, p.app, undefined, atRoot, all, 'the initial route configured to / again')
						yield* checkNavigate(I, p.app, p.r2, h2, all, 'a route registered before')
						return
					}
					yield* checkNavigate(I, p.app, undefined, n === 0 ? atRoot : n === 1 ? h1 : n === 2 ? h2 : null, all, 'the initial route')
					// configuring keeps the routes
					yield* checkNavigate(I, p.app, p.r1, h1, all, 'a route registered before')
					// the configuration outlives the routes
					yield* I.m(routes, 'clearRoutes')
					yield* checkNavigate(I, p.app, undefined, null, all, 'the initial route, once the routes are cleared')
					const at = n === 1 ? p.r1 : n === 2 ? p.r2 : n === 3 ? I.key('unknown route') : '/'
					const [h3, h4] = handlers(I, 2)
					yield* I.m(routes, 'register', at, h3)
					if (at !== '/') yield* I.m(routes, 'register', '/', h4)
					all.push(h3, h4)
					yield* checkNavigate(I, p.app, undefined, h3, all, 'the initial route, registered again')
					const other = yield* routesApp(I)
					const [g] = handlers(I, 1)
					yield* I.m(yield* I.get(other, 'routes'), 'register', '/', g)
					yield* checkNavigate(I, other, undefined, g, [...all, g], 'the initial route of another app')
				}
			]
		}
	]
}

// ------------------------------------------------------------------ browser

const listens = (I, m, op) => I.since(m, e => e.t === 'listen' && e.op === op)
function* browserApp(I, o = {}, { test, before = [], after = [], name } = {}) {
	const g = test ? yield* gizmo(I, 'browser', 'browserTestGizmoFn', o && I.obj(o), './testing') : yield* gizmo(I, 'browser', 'browserGizmoFn', o && I.obj(o))
	return yield* incubateApp(I, [...before, g, ...after], name === undefined ? {} : { name })
}
const FORMS = ['browser', 'browser for tests']
/** an error event, as the browser dispatches it */
function errorEvent(I, i) {
	const e = { message: I.atom(`message ${i}`, M.STR), filename: I.atom(`file ${i}`, M.STR), lineno: I.atom(`line ${i}`, M.NUM), colno: I.atom(`column ${i}`, M.NUM), error: I.atom(`error ${i}`, M.OBJ), prevent: I.fn(`preventDefault ${i}`, function* () {}) }
	return { ...e, ev: I.obj({ message: e.message, filename: e.filename, lineno: e.lineno, colno: e.colno, error: e.error, preventDefault: e.prevent }) }
}
/** an error event that agrees with another one in some of its parts, or the same one again */
function errorLike(I, i, o) {
	const how = I.pick(['another error', 'the same event again', 'an equal error of another event', 'another line of the same message', 'another message of the same error'], `error ${i}`)
	if (how === 'the same event again') return o
	const e = errorEvent(I, i)
	if (how === 'another error') return e
	const p = how.startsWith('an equal') ? ['message', 'filename', 'lineno', 'colno', 'error'] : how.startsWith('another line') ? ['message', 'filename', 'error'] : ['filename', 'lineno', 'colno', 'error']
	for (const k of p) {
		e[k] = o[k]
		I.setp(e.ev, k, o[k])
	}
	return e
}
/** the listeners of an event that are registered, those for one event only until it came */
const listening = ls => ls.filter(e => e.type === 'error').map(e => ({ fn: e.fn, opts: e.opts }))
function* dispatch(I, live, ev) {
	for (const l of live.slice()) {
		if (I.isRef(l.opts) && I.truthy(yield* I.get(l.opts, 'once'))) live.splice(live.indexOf(l), 1)
		yield* I.call(l.fn, ev)
	}
}
function* checkError(I, p, e, h) {
	const before = yield* I.elems(yield* I.m(p.errors, 'get'))
	const m = I.mark()
	yield* dispatch(I, p.live, e.ev)
	const now = yield* I.elems(yield* I.m(p.errors, 'get'))
	if (!I.ok(now.length === before.length + 1, 'each error is added', `${now.length - before.length} added`)) I.stop()
	I.listEq(now.slice(0, -1), before, 'after the ones before, which stay')
	const x = now.at(-1)
	I.eq(yield* I.get(x, 'message'), e.message, 'the entry has the message')
	I.eq(yield* I.get(x, 'source'), e.filename, 'the entry has the source file')
	I.eq(yield* I.get(x, 'lineno'), e.lineno, 'the entry has the line')
	I.eq(yield* I.get(x, 'colno'), e.colno, 'the entry has the column')
	if (I.truthy(e.error)) I.eq(yield* I.get(x, 'cause'), e.error, 'the entry has the error as its cause')
	I.ok(I.calls(m, h).length === 1, 'handlers learn of it once', '')
	yield* logged(I, m, p.app, SEVERE, 'it is logged as an error in the app log')
	I.ok(I.calls(m, e.prevent).length > 0 === p.prevent, 'the default handling is prevented exactly when asked for', '')
}
export const B01 = {
	theorems: FORMS.map(form => ({
		name: `every uncaught error is kept, announced and logged [${form}]`,
		stages: [
			function* (I) {
				const pd = I.pick(['default', 'false', 'true'], 'preventDefault')
				const m = I.mark()
				const app = yield* browserApp(I, pd === 'default' ? undefined : { preventDefault: pd === 'true' }, { test: form !== 'browser' })
				const ls = listens(I, m, 'add').filter(e => I.eq3(e.type, 'error') === true)
				if (!I.ok(ls.length === 1, 'the app listens to uncaught errors from its creation on', `${ls.length} listeners`)) I.stop()
				const errors = yield* I.get(app, 'browser', 'errors')
				yield* I.list(yield* I.m(errors, 'get'), [], 'at first there is no error')
				for (const k of ['set', 'add', 'reset', 'write']) I.eq(yield* I.get(errors, k), undefined, 'the errors can be read and watched only')
				return { app, live: listening(ls), prevent: pd === 'true', errors }
			},
			function* (I, p) {
				const n = 1 + I.choose(['one', 'two', 'three'], 'errors')
				const h = I.fn('handler', function* () {})
				yield* I.m(p.errors, 'onChange', h)
				const es = [errorEvent(I, 1)]
				for (let i = 2; i <= n; i++) es.push(errorLike(I, i, es[i - 2]))
				for (const e of es) {
					yield* checkError(I, p, e, h)
				}
			}
		]
	})).concat(FORMS.map(form => ({
		name: `however many errors there are, whatever was thrown, and whoever cleans up elsewhere [${form}]`,
		stages: [
			function* (I) {
				const what = I.pick(['a great many', 'nothing thrown', 'null thrown', 'a text thrown', 'the empty text thrown', 'zero thrown', 'false thrown', 'no message', 'no position', 'from another site', 'a handler removed', 'another app cleaned up', 'another app alive', 'a handler that uses the errors'], 'errors')
				const prevent = what !== 'a great many' && I.pick(['default', 'true'], 'preventDefault') === 'true'
				const m = I.mark()
				const app = yield* browserApp(I, prevent ? { preventDefault: true } : undefined, { test: form !== 'browser' })
				const live = listening(listens(I, m, 'add'))
				const errors = yield* I.get(app, 'browser', 'errors')
				const p = { app, live, prevent, errors }
				const h = I.fn('handler', function* () {})
				const g = I.fn('another handler', function* () {})
				const off = yield* I.m(errors, 'onChange', h)
				yield* I.m(errors, 'onChange', g)
				const odd = { 'nothing thrown': { error: undefined }, 'null thrown': { error: null }, 'a text thrown': { error: 'text' }, 'the empty text thrown': { error: '' }, 'zero thrown': { error: 0 }, 'false thrown': { error: false }, 'no message': { message: '' }, 'no position': { filename: undefined, lineno: undefined, colno: undefined }, 'from another site': { message: 'Script error.', filename: '', lineno: 0, colno: 0, error: null } }[what]
				if (what === 'a great many') {
					for (let i = 1; i <= 1100; i++) yield* dispatch(I, live, I.obj({ message: `message ${i}`, filename: 'file', lineno: i, colno: 1, error: I.obj({}), preventDefault: I.fn('preventDefault', function* () {}) }))
					I.ok((yield* I.elems(yield* I.m(errors, 'get'))).length === 1100, 'all errors are kept', '')
				} else if (odd) {
					const e = errorEvent(I, 1)
					for (const k of Object.keys(odd)) {
						e[k] = odd[k]
						I.setp(e.ev, k, odd[k])
					}
					yield* checkError(I, p, e, h)
					yield* checkError(I, p, e, g)
				} else if (what === 'a handler removed') {
					yield* I.call(off)
					const m2 = I.mark()
					yield* checkError(I, p, errorEvent(I, 1), g)
					I.ok(I.calls(m2, h).length === 0, 'a handler removed learns of no error', '')
				} else if (what === 'another app cleaned up') {
					const other = yield* browserApp(I, undefined, { test: form !== 'browser' })
					const m2 = I.mark()
					yield* I.m(yield* I.imp(PKG('app'), 'incubate'), 'cleanup', other)
					yield* I.drain()
					for (const r of listens(I, m2, 'remove')) for (const l of live.slice()) if (l.fn === r.fn) live.splice(live.indexOf(l), 1)
					I.ok(live.length > 0, 'cleaning up another app leaves the listener of this one', '')
				} else if (what === 'another app alive') {
					const m2 = I.mark()
					const other = yield* browserApp(I, undefined, { test: form !== 'browser' })
					const both = [...live, ...listening(listens(I, m2, 'add'))]
					const oe = yield* I.get(other, 'browser', 'errors')
					const oh = I.fn('handler of the other app', function* () {})
					yield* I.m(oe, 'onChange', oh)
					for (let i = 1; i <= 2; i++) {
						const m3 = I.mark()
						yield* dispatch(I, both, errorEvent(I, i).ev)
						for (const x of [errors, oe]) I.ok((yield* I.elems(yield* I.m(x, 'get'))).length === i, 'each app keeps an error once', '')
						for (const f of [h, g, oh]) I.ok(I.calls(m3, f).length === 1, 'handlers of each app learn of it once', '')
					}
				} else if (what === 'a handler that uses the errors') {
					let seen
					yield* I.m(
						errors,
						'onChange',
						I.fn('reader', function* () {
							seen = yield* I.elems(yield* I.m(errors, 'get'))
						})
					)
					const e0 = errorEvent(I, 0)
					yield* checkError(I, p, e0, h)
					I.ok(seen?.length === 1, 'a handler that asks for the errors sees the new one', '')
				}
				yield* checkError(I, p, errorEvent(I, 'last'), g)
				yield* checkError(I, p, errorEvent(I, 'very last'), g)
			}
		]
	})))
}
export const B02 = {
	theorems: [
		...FORMS.map(form => ({
			name: `the fetch of the app is the one given, else that of the app so far, else that of the browser [${form}]`,
			stages: [
				function* (I) {
					const given = I.fn('fetch given', function* () {})
					const ctx = I.fn('fetch of the app so far', function* () {})
					const hasGiven = I.pick(['given', 'not given'], 'option fetch') === 'given'
					const hasCtx = I.pick(['before', 'none'], 'a fetch gizmo') === 'before'
					const before = hasCtx ? [yield* gizmo(I, 'fetch', 'fetchTestGizmoFn', I.obj({ fetch: ctx }), './testing')] : []
					const app = yield* browserApp(I, hasGiven ? { fetch: given } : undefined, { test: form !== 'browser', before })
					const f = yield* I.get(app, 'fetch')
					if (hasGiven) I.eq(f, given, 'the fetch given is used')
					else if (hasCtx) I.eq(f, ctx, 'the fetch of the app so far is kept')
					else {
						const url = I.atom('url', M.STR)
						const init = I.obj({})
						const m = I.mark()
						const r = I.pick(['of the app', 'taken off'], 'fetch called') === 'taken off' ? yield* I.call(f, url, init) : yield* I.m(app, 'fetch', url, init)
						const cs = I.since(m, e => e.t === 'fetch')
						if (I.ok(cs.length === 1, 'calling it calls the fetch of the browser once', `${cs.length} times`)) {
							I.listEq(cs[0].args, [url, init], 'with the same arguments')
							I.eq(r, cs[0].ret, 'and gives its result')
						}
					}
				}
			]
		})),
		...['fetchGizmo', 'fetchTestGizmoFn', 'fetchTestGizmoFn with a fetch'].map(which => ({
			name: `the fetch part calls the fetch of the platform [${which}]`,
			stages: [
				function* (I) {
					const given = I.fn('fetch given', function* () {})
					const g = which === 'fetchGizmo' ? yield* I.imp(PKG('fetch'), 'fetchGizmo') : yield* gizmo(I, 'fetch', 'fetchTestGizmoFn', which === 'fetchTestGizmoFn' ? undefined : I.obj({ fetch: given }), './testing')
					const app = yield* incubateApp(I, [g])
					const f = yield* I.get(app, 'fetch')
					if (which === 'fetchTestGizmoFn with a fetch') {
						I.eq(f, given, 'the fetch given is used')
						return
					}
					const url = I.atom('url', M.STR)
					const init = I.obj({})
					const taken = I.pick(['of the app', 'taken off'], 'fetch called') === 'taken off'
					const m = I.mark()
					const r = yield* I.attempt(taken ? I.call(f, url, init) : I.m(app, 'fetch', url, init))
					const cs = I.since(m, e => e.t === 'fetch')
					if (I.ok(!r.threw && cs.length === 1, `${taken ? 'taken off the app' : 'called on the app'}, it calls the fetch of the platform once`, r.threw ? `it throws ${I.show(r.value)}` : `${cs.length} times`)) {
						I.listEq(cs[0].args, [url, init], 'with the same arguments')
						I.eq(r.value, cs[0].ret, 'and gives its result')
					}
				}
			]
		})),
		...FORMS.map(form => ({
			name: `the app exposes the storages, navigator and location of the browser, or those given [${form}]`,
			stages: [
				function* (I) {
					const parts = ['localStorage', 'sessionStorage', 'navigator', 'location']
					const given = {}
					if (form !== 'browser') {
						const which = I.pick(['none', ...parts, 'all'], 'given')
						for (const k of parts) if (which === 'all' || which === k) given[k] = I.atom(`${k} given`, M.OBJ)
					}
					const app = yield* browserApp(I, given, { test: form !== 'browser' })
					for (const k of parts) I.eq(yield* I.get(app, 'browser', k), given[k] ?? I.global(k), `${k} is the one given, else that of the browser`)
				}
			]
		}))
	]
}
export const B03 = {
	theorems: [
		{
			name: 'cleaning up removes the very listener that was added',
			stages: [
				function* (I) {
					const m = I.mark()
					const pd = I.pick(['default', 'true'], 'preventDefault')
					const app = yield* browserApp(I, pd === 'default' ? undefined : { preventDefault: true })
					const added = listens(I, m, 'add')
					const before = I.pick(['nothing happened', 'an error happened', 'errors happened', 'a watcher was added'], 'before')
					const errors = yield* I.get(app, 'browser', 'errors')
					if (before === 'a watcher was added') yield* I.m(errors, 'onChange', I.fn('watcher', function* () {}))
					for (let i = 1; i <= (before === 'an error happened' ? 1 : before === 'errors happened' ? 3 : 0); i++) yield* dispatch(I, listening(added), errorEvent(I, i).ev)
					I.ok(listens(I, m, 'remove').length === 0, 'while the app lives no listener is removed', '')
					const m2 = I.mark()
					yield* I.m(yield* I.imp(PKG('app'), 'incubate'), 'cleanup', app)
					yield* I.drain()
					const removed = listens(I, m2, 'remove')
					I.ok(added.length > 0, 'the app listens to uncaught errors', '')
					I.ok(listens(I, m2, 'add').length === 0, 'cleaning up adds none', '')
					const key = e => e.fn
					I.bagEq(removed.map(key), added.map(key), 'every listener added is removed')
					for (const a of added) I.ok(removed.some(r => r.fn === a.fn && I.eq3(r.type, a.type) === true), 'for the same event', '')
					const phase = function* (e) {
						return I.truthy(I.isRef(e.opts) ? yield* I.get(e.opts, 'capture') : e.opts)
					}
					for (const a of added) {
						let same = false
						for (const r of removed) if (r.fn === a.fn && (yield* phase(r)) === (yield* phase(a))) same = true
						I.ok(same, 'in the same phase', '')
					}
				}
			]
		}
	]
}

// ------------------------------------------------------------------ apps and logs

const LEVELS = ['emergency', 'alert', 'critical', 'error', 'warn', 'notice', 'info', 'debug', 'trace', 'planck']
function* anyApp(I, test, opts, gizmos = []) {
	let inc
	if (test) inc = yield* I.call(yield* I.imp(PKG('app'), 'justTestApp', './testing'), opts)
	else inc = yield* I.call(yield* I.imp(PKG('app'), 'justApp'), opts)
	for (const g of gizmos) inc = yield* I.m(inc, 'with', g)
	return inc
}
const APPS = ['justApp', 'justTestApp']
export const A01 = {
	theorems: [
		...APPS.map(kind => ({
			name: `creating an app runs its gizmos in order, once, then the start handler, and gives the app [${kind}]`,
			stages: [
				function* (I) {
					const test = kind === 'justTestApp'
					const [x1, x2, x3] = ['a', 'b', 'c'].map(n => I.atom(`part ${n}`, M.OBJ))
					const order = []
					const mkg = (n, key, val) =>
						I.fn(`create ${n}`, function* (args) {
							order.push({ n, ctx: args[0], id: yield* I.get(args[0], 'id'), log: yield* I.get(args[0], 'log'), prev: yield* I.get(args[0], 'a') })
							return I.obj({ [key]: val })
						})
					const g1 = mkg(1, 'a', x1)
					const g2 = mkg(2, 'b', x2)
					const g3 = mkg(3, 'a', x3)
					const name = I.str('app name')
					const dup = I.pick(['distinct parts', 'a part replaced'], 'gizmos') === 'a part replaced'
					const inc = yield* anyApp(I, test, I.obj({ name }), [I.obj({ create: g1 }), I.obj({ create: g2 }), ...(dup ? [I.obj({ create: g3 })] : [])])
					const how = I.pick(['create()', 'create(start)'], 'created by')
					let started
					const start = I.fn('start', function* (args) {
						started = { app: args[0], a: yield* I.get(args[0], 'a'), b: yield* I.get(args[0], 'b'), n: order.length }
					})
					const m = I.mark()
					const app = yield* I.await(how === 'create()' ? yield* I.m(inc, 'create') : yield* I.m(inc, 'create', start))
					I.listEq(I.calls(m, [g1, g2, g3]).map(c => c.fn), dup ? [g1, g2, g3] : [g1, g2], 'every gizmo runs once, in the order given')
					for (const o of order) {
						I.eq(yield* I.get(app, 'id'), o.id, 'each gizmo sees the identity of the app')
						I.ok(I.isRef(o.log), 'each gizmo sees the log of the app', '')
						I.eq(o.prev, o.n === 1 ? undefined : x1, 'each gizmo sees what the ones before it made')
					}
					I.eq(yield* I.get(app, 'a'), dup ? x3 : x1, 'the app has the parts its gizmos made, a later one in place of an earlier')
					I.eq(yield* I.get(app, 'b'), x2, 'the app has the parts its gizmos made')
					I.eq(yield* I.get(app, 'name'), name, 'the app has its name')
					const c = I.calls(m, start)
					if (how === 'create()') I.ok(c.length === 0, 'without a start handler none runs', '')
					else if (I.ok(c.length === 1, 'the start handler runs once', `${c.length} times`)) {
						I.eq(started.app, app, 'with the app')
						I.eq(started.a, dup ? x3 : x1, 'after all gizmos')
						I.eq(started.b, x2, 'after all gizmos')
					}
					const own = yield* appLog(I, app)
					const ls = I.logs(m).filter(l => l.sl === own.sl)
					I.ok(ls.filter(l => l.method === 'info' && l.args.some(a => mentions(I, a, I.resolve(order[0].id)))).length === 1, 'the creation is logged once, with the id of the app', `${ls.length} messages`)
					I.ok(I.logs(m, WARNING).length === 0, 'no problem is reported', '')
				}
			]
		})),
		...APPS.map(kind => ({
			name: `every creation makes an app of its own [${kind}]`,
			stages: [
				function* (I) {
					const name = I.str('app name')
					const seen = []
					const g = I.fn('create gizmo', function* (args) {
						const part = I.obj({})
						seen.push({ part, id: yield* I.get(args[0], 'id') })
						return I.obj({ part })
					})
					const started = []
					const start = I.fn('start', function* (args) {
						started.push(args[0])
					})
					const startHow = I.pick(['no start handler', 'a start handler', 'a start handler the second time'], 'created with')
					const inc = yield* anyApp(I, kind === 'justTestApp', I.obj({ name }), [I.obj({ create: g })])
					const mk = function* (s) {
						return yield* I.await(s ? yield* I.m(inc, 'create', start) : yield* I.m(inc, 'create'))
					}
					const m = I.mark()
					const a = yield* mk(startHow === 'a start handler')
					I.ok(I.calls(m, g).length === 1, 'its gizmos run for the first app', '')
					const m2 = I.mark()
					const b = yield* mk(startHow !== 'no start handler')
					I.ok(I.calls(m2, g).length === 1, 'its gizmos run again for the second app', '')
					I.ok(a !== b, 'the second creation gives another app', '')
					I.ok((yield* I.get(a, 'log')) !== (yield* I.get(b, 'log')), 'with a log of its own', '')
					for (const [i, x] of [a, b].entries()) {
						I.eq(yield* I.get(x, 'part'), seen[i]?.part, 'each app has the parts its own gizmos made')
						I.eq(yield* I.get(x, 'id'), seen[i]?.id, 'and the identity they saw')
						I.eq(yield* I.get(x, 'name'), name, 'and the name')
					}
					I.listEq(started, startHow === 'no start handler' ? [] : startHow === 'a start handler' ? [a, b] : [b], 'the start handler runs for each app it is given for, with that app')
					const own = yield* appLog(I, b)
					I.ok(I.logs(m2, ['info']).filter(l => l.sl === own.sl && l.args.some(x => mentions(I, x, I.resolve(seen[1]?.id)))).length === 1, 'the second creation is logged once, in the log of the second app, with its id', '')
					// one more gizmo on top: the incubator so far is not changed by it
					const more = I.obj({})
					const inc2 = yield* I.m(inc, 'with', I.obj({ create: I.fn('create more', function* () {
						return I.obj({ more })
					}) }))
					const c = yield* I.await(yield* I.m(inc2, 'create'))
					I.eq(yield* I.get(c, 'more'), more, 'a gizmo added later is part of the apps created from then on')
					I.eq(yield* I.get(b, 'more'), undefined, 'and not of those created before')
					const m3 = I.mark()
					const d = yield* I.await(yield* I.m(inc2, 'create'))
					const dl = yield* appLog(I, d)
					I.ok(I.logs(m3, ['info']).some(l => l.sl === dl.sl), 'which log their creation too', '')
				}
			]
		})),
		...APPS.map(kind => ({
			name: `whatever a gizmo gives [${kind}]`,
			stages: [
				function* (I) {
					const part = I.atom('part', M.OBJ)
					const gives = I.pick(['nothing', 'a list of one', 'a list with a starter', 'its part', 'later', 'a log of its own kind'], 'a gizmo gives')
					const ownLog = I.obj({})
					const begin = I.fn('starter', function* () {})
					const g = I.fn('create gizmo', function* () {
						if (gives === 'nothing') return undefined
						if (gives === 'its part') return I.obj({ part })
						if (gives === 'a log of its own kind') return I.obj({ part, log: ownLog })
						if (gives === 'a list of one') return I.arr([I.obj({ part })])
						if (gives === 'a list with a starter') return I.arr([I.obj({ part }), begin])
						const d = I.deferred()
						yield* I.fulfill0(d, I.obj({ part }))
						return d
					})
					const other = I.atom('another part', M.OBJ)
					const last = I.fn('create last', function* () {
						return I.obj({ other })
					})
					const inc = yield* anyApp(I, kind === 'justTestApp', I.obj({ name: I.str('app name') }), [I.obj({ create: g }), I.obj({ create: last })])
					const m = I.mark()
					const app = yield* I.await(yield* I.m(inc, 'create'))
					I.eq(yield* I.get(app, 'part'), gives === 'nothing' ? undefined : part, 'the app has the part the gizmo made, if any')
					I.eq(yield* I.get(app, 'other'), other, 'and those of the gizmos after it')
					if (gives === 'a log of its own kind') I.eq(yield* I.get(app, 'log'), ownLog, 'a log a gizmo made is the log of the app')
					I.ok(I.logs(m, ['info']).length === 1, 'the creation is logged once', '')
				}
			]
		})),
		{
			name: 'a gizmo or start handler that fails fails the creation',
			stages: [
				function* (I) {
					const kind = I.pick(APPS, 'app')
					const err0 = I.atom('failure', M.OBJ)
					const where = I.pick(['gizmo throws', 'gizmo rejects', 'start rejects', 'start throws'], 'failure')
					const what = I.pick(['an error', 'nothing', 'a text'], 'thrown')
					const err = what === 'an error' ? err0 : what === 'nothing' ? undefined : 'text'
					const bad = I.fn('create', function* () {
						if (where.endsWith('throws')) yield* I.throw(err)
						const d = I.deferred()
						yield* I.reject0(d, err)
						return d
					})
					const inc = yield* anyApp(I, kind === 'justTestApp', I.obj({ name: I.str('app name') }), where.startsWith('gizmo') ? [I.obj({ create: bad })] : [])
					const m = I.mark()
					const r = yield* I.settle(where.startsWith('gizmo') ? yield* I.m(inc, 'create') : yield* I.m(inc, 'create', bad))
					if (I.ok(r.state === 'rejected', 'the creation is rejected', `it is ${r.state}`)) I.eq(r.value, err, 'with that error')
					I.ok(I.logs(m, ['info']).length === 0, 'and no creation is logged', '')
				}
			]
		}
	]
}
export const A02 = {
	theorems: [
		...APPS.map(kind => ({
			name: `an app has the name given and an id drawn for it [${kind}]`,
			stages: [
				function* (I) {
					const test = kind === 'justTestApp'
					const named = !test || I.pick(['a name', 'no name'], 'given') === 'a name'
					const name = I.str('app name')
					const more = I.pick(['name only', 'an id as well'], 'options') === 'an id as well'
					const mine = I.atom('id given', M.STR)
					const mk = function* () {
						const o = named ? I.obj({ name }) : test && !more && I.pick(['empty options', 'no options'], 'given') === 'no options' ? undefined : I.obj({})
						if (more) yield* I.set(o, 'id', mine)
						return o
					}
					const inc = yield* anyApp(I, test, yield* mk())
					const m1 = I.mark()
					const a = yield* I.await(yield* I.m(inc, 'create'))
					const m2 = I.mark()
					const b = yield* I.await(yield* I.m(I.pick(['the same incubator', 'another'], 'second app from') === 'another' ? yield* anyApp(I, test, yield* mk()) : inc, 'create'))
					const m3 = I.mark()
					for (const [x, s, e] of [[a, m1, m2], [b, m2, m3]]) {
						const n = yield* I.get(x, 'name')
						if (named) I.eq(n, name, 'the name is the one given')
						else I.ok(typeof I.resolve(n) === 'string' && I.resolve(n) !== '', 'a test app without a name has one', I.show(n))
						const id = yield* I.get(x, 'id')
						const draws = I.since(s, ev => ev.t === 'random').slice(0, I.since(s, ev => ev.t === 'random').length - I.since(e, ev => ev.t === 'random').length)
						I.ok(draws.some(d => mentions(I, id, d.v)), 'the id is drawn at random when the app is created', I.show(id))
						I.ok(entropy(I, id, draws.map(d => d.v)) >= 64, 'no fewer than 64 random bits tell two apps apart', I.show(id))
					}
					I.ok(I.eq3(yield* I.get(a, 'id'), yield* I.get(b, 'id')) !== true, 'two apps never have the same id by construction', '')
				}
			]
		})),
		{
			name: 'the id gizmo gives an identity of its own',
			stages: [
				function* (I) {
					const incubate = yield* I.imp(PKG('app'), 'incubate')
					const name = I.str('name')
					const which = I.pick(['idGizmoFn', 'idTestGizmoFn', 'idTestGizmoFn without options'], 'gizmo')
					const f = which === 'idGizmoFn' ? yield* I.imp(PKG('id'), 'idGizmoFn') : yield* I.imp(PKG('id'), 'idTestGizmoFn', './testing')
					const g = which.endsWith('options') ? yield* I.call(f) : yield* I.call(f, I.obj({ name }))
					const m = I.mark()
					const x = yield* I.await(yield* I.m(yield* I.m(yield* I.call(incubate), 'with', g), 'create'))
					if (!which.endsWith('options')) I.eq(yield* I.get(x, 'name'), name, 'the name is the one given')
					else I.ok(I.truthy(yield* I.get(x, 'name')), 'there is a name', '')
					const id = yield* I.get(x, 'id')
					const draws = I.since(m, ev => ev.t === 'random').map(d => d.v)
					I.ok(draws.some(d => mentions(I, id, d)), 'the id is drawn at random', I.show(id))
					I.ok(entropy(I, id, draws) >= 64, 'no fewer than 64 random bits tell two apps apart', I.show(id))
				}
			]
		}
	]
}
export const A03 = {
	theorems: APPS.map(kind => ({
		name: `loggers are named within their app [${kind}]`,
		logOn: 'always',
		stages: [
			function* (I) {
				const name = I.str('app name')
				const test = kind === 'justTestApp'
				return { name, app: yield* I.await(yield* I.m(yield* anyApp(I, test, I.obj({ name })), 'create')) }
			},
			function* (I, { name, app }) {
				const log = yield* I.get(app, 'log')
				const own = yield* appLog(I, app)
				const id = I.key('logger id')
				const prefix = I.key('prefix')
				const opts = I.obj({})
				const forms = {
					*'getLogger()'() {
						return [yield* I.m(log, 'getLogger'), name]
					},
					*'getLogger(id)'() {
						return [yield* I.m(log, 'getLogger', id, opts), I.concat(name, ':', id), opts]
					},
					*'getNonConsoleLogger(id)'() {
						return [yield* I.m(log, 'getNonConsoleLogger', id, opts), I.concat(name, ':', id), opts]
					},
					*'prefixed getLogger(id)'() {
						return [yield* I.call(yield* I.call(yield* I.imp(PKG('app'), 'createPrefixedGetLogger'), app, prefix), id, opts), I.concat(name, ':', prefix, ':', id), opts]
					},
					*'prefixed getNonConsoleLogger(id)'() {
						return [yield* I.call(yield* I.call(yield* I.imp(PKG('app'), 'createPrefixedGetNonConsoleLogger'), app, prefix), id, opts), I.concat(name, ':', prefix, ':', id), opts]
					},
					*"prefixed getLogger('')"() {
						return [yield* I.call(yield* I.call(yield* I.imp(PKG('app'), 'createPrefixedGetLogger'), app, prefix), ''), I.concat(name, ':', prefix)]
					}
				}
				const form = I.pick(Object.keys(forms), 'logger')
				const m = I.mark()
				const [l, want, wantOpts] = yield* forms[form]()
				const made = I.since(m, e => e.t === 'getLogger')
				I.eq(yield* I.get(l, 'id'), want, 'its id is that of the app and the id given')
				if (wantOpts) I.ok(made.some(e => e.opts === wantOpts), 'the options given are used', '')
				const msg = I.atom('message', M.STR)
				const m2 = I.mark()
				yield* I.m(l, 'warn', msg)
				const ls = I.logs(m2)
				if (I.ok(ls.length === 1, 'what it logs is logged once', `${ls.length} times`)) {
					I.ok(ls[0].sl === own.sl, 'to the log of the app', '')
					I.ok(ls[0].console === !form.includes('NonConsole'), 'a non-console logger does not reach the console, others do', '')
					I.listEq(ls[0].args, [msg], 'as it was given')
				}
			}
		]
	})).concat(APPS.map(kind => ({
		name: `however the app, the prefix and the logger are called [${kind}]`,
		stages: [
			function* (I) {
				const name = I.pick(['app', 'app:sub', '@scope/app', 'App 1', 'a'], 'app name')
				const test = kind === 'justTestApp'
				const app = yield* I.await(yield* I.m(yield* anyApp(I, test, I.obj({ name })), 'create'))
				const log = yield* I.get(app, 'log')
				const ids = ['app', 'app:', 'app:x', ':', ' ', 'a', 'a:b', '@scope/app', 'sub', 'prefix', 'prefix:x', 'x', 'X', 'constructor', '0']
				for (const id of I.pick([ids, ids.slice().reverse()], 'order')) {
					I.eq(yield* I.get(yield* I.m(log, 'getLogger', id), 'id'), `${name}:${id}`, 'a logger is named within the app')
					I.eq(yield* I.get(yield* I.m(log, 'getNonConsoleLogger', `${id}-quiet`), 'id'), `${name}:${id}-quiet`, 'a non-console logger is named within the app')
					for (const prefix of ['prefix', 'app', id]) {
						I.eq(yield* I.get(yield* I.call(yield* I.call(yield* I.imp(PKG('app'), 'createPrefixedGetLogger'), app, prefix), id), 'id'), `${name}:${prefix}:${id}`, 'a prefixed logger is named within the prefix')
						I.eq(yield* I.get(yield* I.call(yield* I.call(yield* I.imp(PKG('app'), 'createPrefixedGetNonConsoleLogger'), app, prefix), `${id}-silent`), 'id'), `${name}:${prefix}:${id}-silent`, 'a prefixed non-console logger is named within the prefix')
					}
				}
				I.eq(yield* I.get(yield* I.m(log, 'getLogger'), 'id'), name, 'without an id it is named as the app')
			}
		]
	})))
}
/** levels of the client: numbers of any size, names of any kind */
const CUSTOM = { cust: 55, other: 66, loud: 1000, silent: 999999, tiny: 1, half: 450.5, level_1: 300, Upper: 250, $x: 401, 'two words': 710 }
export const A04 = {
	theorems: [
		...APPS.map(kind => ({
			name: `the log of an app logs under its name, whichever way its methods are called [${kind}]`,
			logOn: 'always',
			stages: [
				function* (I) {
					const name = I.str('app name')
					const test = kind === 'justTestApp'
					const custom = I.pick(['standard levels', 'custom levels'], 'levels') === 'custom levels'
					const logOpts = custom ? I.obj({ customLevels: I.obj(CUSTOM) }) : undefined
					const opts = logOpts ? I.obj({ name, log: logOpts }) : I.obj({ name })
					const m = I.mark()
					const app = yield* I.await(yield* I.m(yield* anyApp(I, test, opts), 'create'))
					return { name, app, custom, test, logOpts, made: I.since(m, e => e.t === 'createStandardLog') }
				},
				function* (I, { name, app, custom, test, logOpts, made }) {
					const log = yield* I.get(app, 'log')
					const own = yield* appLog(I, app)
					const method = I.pick(custom ? [...LEVELS, ...Object.keys(CUSTOM)] : LEVELS, 'method')
					const n = I.pick(method === 'error' || custom && !LEVELS.includes(method) ? [0, 1, 2, 3, 12] : [1, 2], 'messages')
					const msgs = Array.from({ length: n }, (_, i) => (i === 11 ? undefined : I.atom(`message ${i + 1}`, i % 2 ? M.OBJ : M.STR)))
					const f = yield* I.get(log, method)
					const m = I.mark()
					if (I.pick(['on the log', 'taken off the log'], 'called') === 'on the log') yield* I.m(log, method, ...msgs)
					else yield* I.call(f, ...msgs)
					const ls = I.logs(m)
					if (I.ok(ls.length === 1, 'one call logs once', `${ls.length} times`)) {
						I.ok(ls[0].sl === own.sl, 'to the log of the app', '')
						I.eq(ls[0].id, name, 'under the name of the app')
						I.ok(ls[0].method === method, 'at that level', ls[0].method)
						I.listEq(ls[0].args, msgs, 'what was given')
					}
					if (logOpts) I.ok(made.some(e => e.sl === own.sl && e.options === logOpts), 'the log is made with the options given', '')
					if (test) I.ok(I.truthy(yield* I.get(log, 'reporter')), 'a test app exposes its reporter', '')
				}
			]
		})),
		{
			name: 'conditional logging and counting of an app log',
			logOn: 'always',
			stages: [
				function* (I) {
					const name = I.str('app name')
					const test = I.pick(APPS, 'app') === 'justTestApp'
					const app = yield* I.await(yield* I.m(yield* anyApp(I, test, I.obj({ name })), 'create'))
					const log = yield* I.get(app, 'log')
					const own = yield* appLog(I, app)
					const f = I.fn('log function', function* (args) {
						yield* I.call(args[0], 'text')
					})
					const detached = I.pick(['on the log', 'taken off the log'], 'called') !== 'on the log'
					const m = I.mark()
					const on = yield* I.get(log, 'on')
					if (detached) yield* I.call(on, 'warn', f)
					else yield* I.m(log, 'on', 'warn', f)
					I.ok(I.calls(m, f).length === 1, 'on() runs the function when the level is enabled', '')
					const ls = I.logs(m)
					I.ok(ls.length === 1 && ls[0].sl === own.sl, 'and logs to the log of the app', '')
					const m2 = I.mark()
					const count = yield* I.get(log, 'count')
					if (detached) yield* I.call(count)
					else yield* I.m(log, 'count')
					const l2 = I.logs(m2)
					I.ok(l2.length === 1 && l2[0].sl === own.sl, 'count() counts in the log of the app', '')
				}
			]
		},
		{
			name: 'apps made with the same log options have logs of their own',
			stages: [
				function* (I) {
					const what = I.pick(['the options', 'the log options', 'the log gizmo'], 'shared')
					const [n1, n2] = [I.str('name'), I.str('another name')]
					const logOptions = I.obj(what === 'the log gizmo' ? {} : { customLevels: I.obj({ loud: 55 }) })
					let mk
					if (what === 'the log gizmo') {
						const g = yield* I.call(yield* I.imp(PKG('log'), 'logGizmoFn'), I.obj({}))
						const incubate = yield* I.imp(PKG('app'), 'incubate')
						const id = yield* I.imp(PKG('id'), 'idGizmoFn')
						mk = function* (name) {
							const named = yield* I.m(yield* I.call(incubate), 'with', yield* I.call(id, I.obj({ name })))
							return yield* I.await(yield* I.m(yield* I.m(named, 'with', g), 'create'))
						}
					} else {
						const test = I.pick(APPS, 'apps') === 'justTestApp'
						const shared = I.obj({ name: n1, log: logOptions })
						mk = function* (name) {
							return yield* I.await(yield* I.m(yield* anyApp(I, test, what === 'the options' ? shared : I.obj({ name, log: logOptions })), 'create'))
						}
					}
					const a = yield* mk(n1)
					const b = yield* mk(n2)
					const [la, lb] = [yield* appLog(I, a), yield* appLog(I, b)]
					I.ok(la.sl !== lb.sl, 'each app has a log of its own', '')
					if (what !== 'the log gizmo') for (const x of [a, b]) I.ok((yield* I.get(x, 'log', 'loud')) !== undefined, 'with the custom levels given', '')
					for (const [x, l] of [[b, lb], [a, la]]) {
						const m = I.mark()
						yield* I.m(yield* I.get(x, 'log'), 'error', 'text')
						I.ok(I.logs(m).length === 1 && I.logs(m)[0].sl === l.sl, 'and logs to it', '')
					}
				}
			]
		},
		{
			name: 'apps do not share their log',
			stages: [
				function* (I) {
					const test = I.pick(APPS, 'apps') === 'justTestApp'
					const name = I.str('app name')
					const levels = I.pick(['none', 'the first', 'the second', 'both, other ones'], 'custom levels of')
					const mk = function* (custom) {
						return yield* I.await(yield* I.m(yield* anyApp(I, test, I.obj(custom ? { name, log: I.obj({ customLevels: I.obj(custom) }) } : { name })), 'create'))
					}
					const ca = levels === 'the first' || levels.startsWith('both') ? { loud: 55 } : undefined
					const cb = levels === 'the second' ? { loud: 55 } : levels.startsWith('both') ? { quiet: 955 } : undefined
					const a = yield* mk(ca)
					const b = yield* mk(cb)
					for (const [x, c] of [[a, ca], [b, cb]])
						for (const l of ['loud', 'quiet']) I.ok(((yield* I.get(x, 'log', l)) !== undefined) === Boolean(c?.[l]), 'the log of an app has the custom levels of that app only', l)
					const [la, lb] = [yield* appLog(I, a), yield* appLog(I, b)]
					I.ok(la.sl !== lb.sl, 'each app has a log of its own', '')
					const m = I.mark()
					yield* I.m(yield* I.get(b, 'log'), 'error', 'text')
					I.ok(I.logs(m).length === 1 && I.logs(m).every(l => l.sl === lb.sl), 'and logs to it', '')
					const m2 = I.mark()
					yield* I.m(yield* I.get(a, 'log'), 'error', 'text')
					I.ok(I.logs(m2).length === 1 && I.logs(m2).every(l => l.sl === la.sl), 'and logs to it', '')
				}
			]
		}
	]
}

// ------------------------------------------------------------------ events

export const E01 = {
	theorems: [
		{
			name: 'an error of a listener is reported in the app log instead of reaching the emitting code',
			stages: [
				function* (I) {
					const err = I.atom('failure', M.OBJ)
					const fails = I.pick(['fails', 'works'], 'a listener') === 'fails'
					const emit = I.fn('emit', function* () {
						if (fails) yield* I.throw(err)
						return true
					})
					const on = I.fn('on', function* () {})
					const emitter = I.obj({ emit, on })
					const app = yield* incubateApp(I, [yield* gizmo(I, 'events', 'eventsGizmoFn', I.obj({ emitter }))])
					const e = yield* I.get(app, 'events', 'emitter')
					I.eq(e, emitter, 'the emitter given is used')
					const [name, a1, a2] = [I.atom('event', M.STR), I.atom('argument 1'), I.atom('argument 2')]
					const m = I.mark()
					const r = yield* I.attempt(I.m(e, 'emit', name, a1, a2))
					const c = I.calls(m, emit)
					if (I.ok(c.length === 1, 'emitting emits once', `${c.length} times`)) {
						I.listEq(c[0].args, [name, a1, a2], 'with the event and its arguments')
						I.eq(c[0].this, emitter, 'on the emitter')
					}
					I.ok(!r.threw, 'emitting does not throw', r.threw ? I.show(r.value) : '')
					if (fails) {
						if (yield* logged(I, m, app, SEVERE, 'the error is reported in the app log')) I.ok(I.logs(m, SEVERE).some(l => l.args.some(a => I.eq3(a, err) === true)), 'it is that very error', '')
					} else I.ok(I.logs(m).length === 0, 'nothing is reported otherwise', '')
				}
			]
		},
		{
			name: 'time after time, whatever is thrown and however many arguments there are',
			stages: [
				function* (I) {
					const thrown = I.pick(['an error', 'nothing', 'null', 'a text', 'a number', 'a function'], 'thrown')
					const err = { 'an error': I.atom('failure', M.OBJ), nothing: undefined, null: null, 'a text': '', 'a number': 0, 'a function': I.fn('failure', function* () {}) }[thrown]
					const plan = I.pick(['fails, works', 'works, fails', 'fails, fails', 'fails inside'], 'emits')
					let n = 0
					const emitter = I.obj({})
					let e
					const emit = I.fn('emit', function* (args) {
						n++
						if (plan === 'fails inside' && n === 1) {
							yield* I.m(e, 'emit', 'inner', 1)
							return true
						}
						if (plan === 'fails inside' || plan.split(', ')[n - 1] === 'fails') yield* I.throw(err)
						return true
					})
					const on = I.fn('on', function* () {})
					I.setp2(emitter, 'emit', emit)
					I.setp2(emitter, 'on', on)
					const app = yield* incubateApp(I, [yield* gizmo(I, 'events', 'eventsGizmoFn', I.obj({ emitter }))])
					const other = yield* incubateApp(I, [yield* gizmo(I, 'events', 'eventsGizmoFn')])
					e = yield* I.get(app, 'events', 'emitter')
					for (let i = 1; i <= (plan === 'fails inside' ? 1 : 2); i++) {
						const as = Array.from({ length: I.pick(i === 1 ? [0, 1, 9] : [0, 3], 'arguments') }, (_, j) => I.atom(`argument ${i}.${j}`))
						const name = I.atom(`event ${i}`, M.STR)
						const m = I.mark()
						const r = yield* I.attempt(I.m(e, 'emit', name, ...as))
						const c = I.calls(m, emit)
						if (I.ok(c.length === (plan === 'fails inside' ? 2 : 1), 'emitting emits once', `${c.length} times`)) I.listEq(c[0].args, [name, ...as], 'with the event and all its arguments')
						I.ok(!r.threw, 'emitting does not throw', r.threw ? I.show(r.value) : '')
						const fails = plan === 'fails inside' || plan.split(', ')[i - 1] === 'fails'
						if (fails) yield* logged(I, m, app, SEVERE, 'the error is reported in the app log')
						else I.ok(I.logs(m).length === 0, 'nothing is reported otherwise', '')
					}
					const [ev, l] = [I.atom('event', M.STR), I.fn('listener', function* () {})]
					const m = I.mark()
					yield* I.m(e, 'on', ev, l)
					if (I.ok(I.calls(m, on).length === 1, 'listeners are added to the emitter', '')) {
						I.listEq(I.calls(m, on)[0].args.slice(0, 2), [ev, l], 'as they are')
						I.eq(I.calls(m, on)[0].this, emitter, 'on the emitter')
					}
					I.ok((yield* I.get(other, 'events', 'emitter')) !== e, 'another app has another emitter', '')
				}
			]
		},
		{
			name: 'an app without an emitter given has its own',
			stages: [
				function* (I) {
					const form = I.pick(['no options', 'empty options'], 'options')
					const m = I.mark()
					const mk = function* () {
						return yield* I.get(yield* incubateApp(I, [yield* gizmo(I, 'events', 'eventsGizmoFn', form === 'no options' ? undefined : I.obj({}))]), 'events', 'emitter')
					}
					const a = yield* mk()
					const b = yield* mk()
					const made = I.since(m, e => e.t === 'newEmitter').map(e => e.v)
					I.listEq([a, b], made, 'each app makes one event emitter and exposes it')
					I.ok(a !== b, 'apps do not share it', '')
				}
			]
		}
	]
}

// ------------------------------------------------------------------ substitutes

export const O01 = {
	theorems: [
		{
			name: 'the history given is the history of the app',
			stages: [
				function* (I) {
					const given = I.atom('history given', M.OBJ)
					const form = I.pick(['given', 'no options', 'no history'], 'options')
					const before = I.pick(['no app', 'an app with none given', 'an app with one given'], 'made before')
					if (before !== 'no app') yield* incubateApp(I, [yield* gizmo(I, 'history', 'historyGizmoFn', before === 'an app with one given' ? I.obj({ history: I.atom('history of the other app', M.OBJ) }) : undefined)])
					const m = I.mark()
					const app = yield* incubateApp(I, [yield* gizmo(I, 'history', 'historyGizmoFn', form === 'given' ? I.obj({ history: given }) : form === 'no history' ? I.obj({}) : undefined)])
					const made = I.since(m, e => e.t === 'history')
					if (form === 'given') {
						I.eq(yield* I.get(app, 'history'), given, 'the history given is used')
						I.ok(made.length === 0, 'and no other is made', '')
					} else if (I.ok(made.length === 1 && made[0].op === 'createBrowserHistory', 'otherwise one browser history is made', `${made.length}`)) I.eq(yield* I.get(app, 'history'), made[0].ret, 'and used')
				}
			]
		},
		{
			name: 'the intl of the app is made from the configuration given',
			stages: [
				function* (I) {
					const config = I.atom('config', M.OBJ)
					const cache = I.pick(['a cache', 'no cache'], 'options') === 'a cache' ? I.atom('cache', M.OBJ) : undefined
					const opts = cache === undefined ? I.obj({ config }) : I.obj({ config, cache })
					const m = I.mark()
					const app = yield* incubateApp(I, [yield* gizmo(I, 'formatjs', 'formatJSGizmoFn', opts)])
					const made = I.since(m, e => e.t === 'createIntl')
					if (I.ok(made.length === 1, 'one intl is made', `${made.length}`)) {
						I.eq(made[0].args[0], config, 'from the configuration given')
						I.eq(made[0].args[1], cache, 'and the cache given')
						I.eq(yield* I.get(app, 'formatjs', 'intl'), made[0].ret, 'and exposed')
					}
				}
			]
		},
		{
			name: 'the os given to a test is the os of the app',
			stages: [
				function* (I) {
					const given = I.fn('isMac given', function* () {
						return true
					})
					const form = I.pick(['given', 'no options', 'empty options'], 'options')
					const app = yield* incubateApp(I, [yield* gizmo(I, 'os', 'osTestGizmoFn', form === 'given' ? I.obj({ isMac: given }) : form === 'no options' ? undefined : I.obj({}), './testing')])
					const m = I.mark()
					const r = yield* I.m(yield* I.get(app, 'os'), 'isMac')
					if (form === 'given') {
						I.ok(I.calls(m, given).length === 1, 'the function given is asked', '')
						I.eq(r, true, 'and its answer is given')
					} else I.eq(r, yield* I.call(yield* I.imp(PKG('os'), 'isMac')), 'otherwise the answer is that of the platform')
				}
			]
		}
	]
}
