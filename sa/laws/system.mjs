// Properties of the system as a whole: the preset, imports, substitutes, test doubles, packaging and types.
import fs from 'node:fs'
import path from 'node:path'
import { M } from '../core.mjs'
import { ensureModule } from '../interp.mjs'
import { REPO, packages, parse, resolveModule, ts, workspaceEntry } from '../modules.mjs'
import { PKG, SEVERE, appLog, commandsApp, gizmo, incubateApp } from './kit.mjs'
import { prefs } from './preferences.mjs'

const NAME = /[A-Za-z0-9-]/
const storageEffects = (I, m, store) => I.since(m, e => e.t === 'storage' && (store === undefined || e.store === store))

// ------------------------------------------------------------------ preset

const PRESETS = ['presetsBrowserGizmoFn', 'presetsBrowserTestGizmoFn']
const subOf = which => (which === PRESETS[0] ? '.' : './testing')
function* presetApp(I, which, opts, { name = I.word('app name', NAME), keyboard = true } = {}) {
	const gs = []
	if (keyboard) gs.push(yield* gizmo(I, 'keyboard', 'keyboardGizmoFn'))
	gs.push(yield* gizmo(I, 'commands', 'commandsGizmoFn'))
	gs.push(yield* gizmo(I, 'presets-browser', which, opts, subOf(which)))
	return yield* incubateApp(I, gs, { name })
}
export const Y01 = {
	theorems: [
		...PRESETS.map(which => ({
			name: `the preset hands each option to the part it is for [${which}]`,
			stages: [
				function* (I) {
					const h = I.atom('history given', M.OBJ)
					const f = I.fn('fetch given', function* () {})
					const form = I.pick(['no options', 'empty options', 'history', 'browser', 'both'], 'options')
					const opts = form === 'no options' ? undefined : I.obj({})
					const hist = form === 'history' || form === 'both'
					const br = form === 'browser' || form === 'both'
					if (hist) yield* I.set(opts, 'history', I.obj({ history: h }))
					if (br) yield* I.set(opts, 'browser', I.obj({ fetch: f, preventDefault: true }))
					const m = I.mark()
					const app = yield* presetApp(I, which, opts, { keyboard: I.pick(['with keyboard', 'without keyboard'], 'app') === 'with keyboard' })
					const made = I.since(m, e => e.t === 'history')
					if (hist) I.eq(yield* I.get(app, 'history'), h, 'the history given is used')
					else {
						const want = which === PRESETS[0] ? 'createBrowserHistory' : 'createMemoryHistory'
						if (I.ok(made.length === 1 && made[0].op === want, 'otherwise one history is made: in memory for tests, of the browser else', `${made.map(x => x.op)}`)) I.eq(yield* I.get(app, 'history'), made[0].ret, 'and used')
					}
					for (const k of ['browser', 'preferences', 'fetch', 'history']) I.ne(yield* I.get(app, k), undefined, `the app has its ${k}`)
					const got = yield* I.get(app, 'fetch')
					if (br) I.eq(got, f, 'the fetch given is used')
					else {
						const m2 = I.mark()
						yield* I.call(got, 'url')
						I.ok(I.since(m2, e => e.t === 'fetch').length === 1, 'otherwise the fetch of the browser is', '')
					}
					const ls = I.since(m, e => e.t === 'listen' && e.op === 'add' && I.eq3(e.type, 'error') === true)
					if (I.ok(ls.length === 1, 'the app listens to uncaught errors', `${ls.length}`)) {
						const prevent = I.fn('preventDefault', function* () {})
						const m3 = I.mark()
						yield* I.call(ls[0].fn, I.obj({ message: I.str('message'), filename: I.str('file'), lineno: 1, colno: 1, error: I.atom('error', M.OBJ), preventDefault: prevent }))
						I.ok(I.calls(m3, prevent).length > 0 === br, 'and prevents their default handling exactly when asked for', '')
						const es = yield* I.elems(yield* I.m(yield* I.get(app, 'browser', 'errors'), 'get'))
						I.ok(es.length === 1, 'and keeps them', `${es.length}`)
					}
				}
			]
		})),
		...PRESETS.map(which => ({
			name: `each preset has the options it is given, not those of another [${which}]`,
			stages: [
				function* (I) {
					const h = I.atom('history given', M.OBJ)
					const f = I.fn('fetch given', function* () {})
					const opts = I.obj({ history: I.obj({ history: h }), browser: I.obj({ fetch: f }) })
					const first = I.pick(['first', 'last'], 'the preset with options is made') === 'first'
					const apps = []
					const m = I.mark()
					for (const o of first ? [opts, undefined] : [undefined, opts]) apps.push(yield* presetApp(I, which, o))
					const [a, b] = first ? apps : apps.reverse()
					I.eq(yield* I.get(a, 'history'), h, 'the history given is used')
					I.eq(yield* I.get(a, 'fetch'), f, 'the fetch given is used')
					const made = I.since(m, e => e.t === 'history')
					if (I.ok(made.length === 1, 'a preset without options makes a history', `${made.length} made`)) I.eq(yield* I.get(b, 'history'), made[0].ret, 'and has it as its own')
					I.ne(yield* I.get(b, 'fetch'), f, 'and the fetch of the browser')
				}
			]
		})),
		...PRESETS.map(which => ({
			name: `the preset leaves the app it extends as it was [${which}]`,
			stages: [
				function* (I) {
					const name = I.word('app name', NAME)
					const before = {}
					const spy = I.obj({ create: I.fn('spy', function* (args) {
						for (const k of ['id', 'log', 'commands', 'keyboard']) before[k] = yield* I.get(args[0], k)
						return undefined
					}) })
					const gs = [yield* gizmo(I, 'keyboard', 'keyboardGizmoFn'), yield* gizmo(I, 'commands', 'commandsGizmoFn'), spy]
					const g = yield* gizmo(I, 'presets-browser', which, undefined, subOf(which))
					gs.push(g)
					const app = yield* incubateApp(I, gs, { name })
					I.eq(yield* I.get(app, 'name'), name, 'the name stays')
					for (const k of Object.keys(before)) I.eq(yield* I.get(app, k), before[k], `the ${k} stays`)
					const part = yield* I.await(yield* I.m(g, 'create', app))
					for (const k of ['name', 'id', 'log', 'commands', 'keyboard']) I.ok(!(yield* I.hasOwn(part, k)), `what the preset makes does not contain the ${k} of the app`, '')
					for (const k of ['browser', 'fetch', 'preferences', 'history']) I.ok(yield* I.hasOwn(part, k), `what the preset makes contains ${k}`, '')
				}
			]
		})),
		{
			name: 'preferences of the preset are kept in the storage of its browser part',
			stages: [
				function* (I) {
					const storage = I.storage('the storage')
					const name = I.word('app name', NAME)
					const mk = function* () {
						return yield* presetApp(I, PRESETS[1], I.obj({ browser: I.obj({ localStorage: storage }) }), { name })
					}
					const a = yield* mk()
					const k = I.key('key')
					const v = I.str('value')
					const m = I.mark()
					yield* prefs(I, a, I.pick(['api', 'command', 'invoke'], 'by'), 'set', k, v)
					I.ok(storageEffects(I, m, storage).some(e => e.op === 'set'), 'a preference set is written there', '')
					I.ok(storageEffects(I, m).every(e => e.store === storage), 'and nowhere else', '')
					I.eq(yield* prefs(I, yield* mk(), 'api', 'get', k), v, 'and read back by the next app')
				}
			]
		}
	]
}

// ------------------------------------------------------------------ imports

const published = () => [...packages.values()].filter(p => /^(frameworks|libraries|plugins|presets)\//.test(p.rel) && p.name.startsWith('@just-web/'))
const OBSERVABLE = ['listen', 'storage', 'fetch', 'log', 'mousetrap', 'timer', 'dispatch', 'history', 'random', 'console', 'call']
export const X02 = {
	explanation: 'Every module reachable from every entry point of every published package is initialised in the analyser; the effect trace of the initialisation must be empty of host effects.',
	theorems: published().map(p => ({
		name: `importing ${p.name} does nothing a program can observe`,
		stages: [
			function* (I) {
				const entries = Object.keys(p.json.exports ?? { '.': 1 }).filter(s => workspaceEntry(p, s))
				I.ok(entries.includes('.'), 'the package has an entry', '')
				for (const sub of entries) {
					const m = I.mark()
					for (const f of reachable(workspaceEntry(p, sub)).files) yield* ensureModule(f)
					yield* I.drain()
					const bad = I.since(m, e => OBSERVABLE.includes(e.t))
					I.ok(bad.length === 0, `importing the entry ${sub} listens to nothing, stores, fetches, logs and schedules nothing`, bad.map(e => `${e.t} ${e.op ?? ''}`).join(', '))
				}
			}
		]
	}))
}

/** modules loaded at run time from entry (of the same package), and the packages they import at run time */
export function reachable(entry) {
	const files = []
	const imports = []
	const seen = new Set()
	const walk = f => {
		if (!f || seen.has(f)) return
		seen.add(f)
		const sf = parse(f)
		const add = (spec, node) => {
			if (spec.startsWith('.')) {
				const r = resolveModule(f, spec)
				if (r?.file) walk(r.file)
			} else imports.push({ file: f, spec, line: sf.getLineAndCharacterOfPosition(node.getStart()).line + 1 })
		}
		const visit = n => {
			if (ts.isImportDeclaration(n)) {
				if (!n.importClause?.isTypeOnly) {
					const named = n.importClause?.namedBindings
					// without any value the import is still evaluated, but tools drop it: not counted
					const onlyTypes = n.importClause && !n.importClause.name && named && ts.isNamedImports(named) && named.elements.length > 0 && named.elements.every(e => e.isTypeOnly)
					if (!onlyTypes) add(n.moduleSpecifier.text, n)
				}
			} else if (ts.isExportDeclaration(n) && n.moduleSpecifier) {
				const named = n.exportClause
				const onlyTypes = n.isTypeOnly || (named && ts.isNamedExports(named) && named.elements.length > 0 && named.elements.every(e => e.isTypeOnly))
				if (!onlyTypes) add(n.moduleSpecifier.text, n)
			} else if (ts.isCallExpression(n) && n.expression.kind === ts.SyntaxKind.ImportKeyword && n.arguments[0] && ts.isStringLiteralLike(n.arguments[0])) add(n.arguments[0].text, n)
			else if (ts.isCallExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === 'require' && n.arguments[0] && ts.isStringLiteralLike(n.arguments[0])) add(n.arguments[0].text, n)
			ts.forEachChild(n, visit)
		}
		visit(sf)
		files.push(f) // after what it imports
	}
	walk(entry)
	return { files, imports }
}
const BUILTIN = new Set(['fs', 'path', 'os', 'util', 'events', 'assert'])
export const X03 = {
	explanation: 'Syntax-directed rule over the run-time import graph of every entry point of every published package: each bare specifier must name the package itself or one it declares: as a (peer) dependency, which its users install, or as a development dependency, which the build bundles into it; each entry it exports must have a source.',
	rules: [
		{
			name: 'run-time imports are declared',
			check() {
				const out = { instances: 0, violations: [], samples: [] }
				const seen = new Set()
				for (const p of published()) {
					const declared = new Set([p.name, ...Object.keys(p.json.dependencies ?? {}), ...Object.keys(p.json.peerDependencies ?? {}), ...Object.keys(p.json.optionalDependencies ?? {}), ...Object.keys(p.json.devDependencies ?? {})])
					for (const sub of Object.keys(p.json.exports ?? { '.': 1 })) {
						const entry = workspaceEntry(p, sub)
						if (!entry) continue
						for (const i of reachable(entry).imports) {
							const name = /^(@[^/]+\/[^/]+|[^/]+)/.exec(i.spec)[1]
							out.instances++
							if (out.samples.length < 3) out.samples.push(`${p.name} imports ${name} (${path.relative(REPO, i.file)}:${i.line})`)
							if (declared.has(name) || name.startsWith('node:') || BUILTIN.has(name)) continue
							const key = `${p.name} imports ${name} without declaring it`
							if (seen.has(key)) continue
							seen.add(key)
							out.violations.push({ msg: key, detail: `entry ${sub}`, loc: `${path.relative(REPO, i.file)}:${i.line}` })
						}
					}
				}
				if (out.instances < 40) out.violations.push({ msg: 'the packages are analysed', detail: `${out.instances} run-time imports found`, loc: REPO })
				return out
			}
		},
		{
			name: 'declared entries have a source',
			check() {
				const out = { instances: 0, violations: [], samples: [] }
				for (const p of published())
					for (const sub of Object.keys(p.json.exports ?? { '.': 1 })) {
						out.instances++
						if (!workspaceEntry(p, sub)) out.violations.push({ msg: `${p.name} declares the entry ${sub} which does not exist`, detail: '', loc: path.relative(REPO, path.join(p.dir, 'package.json')) })
					}
				return out
			}
		}
	]
}

// ------------------------------------------------------------------ substitutes are used throughout

export const X04 = {
	theorems: [
		{
			name: 'an app given a storage, navigator and fetch never uses those of the browser',
			stages: [
				function* (I) {
					const storage = I.storage('the storage')
					const session = I.storage('the session storage')
					const fetch = I.fn('fetch given', function* () {})
					const kind = I.pick(['parts', 'preset'], 'app made from')
					const name = I.word('app name', NAME)
					const lang = I.pick(['a language', 'none'], 'the navigator given has') === 'none' ? undefined : I.word('language given', /[a-z-]/)
					const opts = I.obj({ localStorage: storage, sessionStorage: session, fetch, navigator: I.obj({ language: lang }), location: I.obj({}) })
					const m = I.mark()
					const gs = [yield* gizmo(I, 'keyboard', 'keyboardGizmoFn'), yield* gizmo(I, 'commands', 'commandsGizmoFn')]
					if (I.pick(['with states and routes', 'without'], 'parts') !== 'without') gs.push(yield* I.imp(PKG('states'), 'statesGizmo'), yield* I.imp(PKG('routes'), 'routesGizmo'))
					if (kind === 'parts') gs.push(yield* gizmo(I, 'browser', 'browserTestGizmoFn', opts, './testing'), yield* I.imp(PKG('browser-preferences'), 'browserPreferencesGizmo'))
					else gs.push(yield* gizmo(I, 'presets-browser', 'presetsBrowserTestGizmoFn', I.obj({ browser: opts }), './testing'))
					gs.push(yield* I.imp(PKG('browser-i18n'), 'browserI18nGizmo'))
					const mk = () => incubateApp(I, gs, { name })
					const app = yield* mk()
					return { app, mk, m, storage, session, lang }
				},
				function* (I, { app, mk, m, storage, session, lang }) {
					const by = I.pick(['api', 'command', 'invoke'], 'client')
					const k = I.key('key')
					const ops = {
						*'preferences'() {
							yield* prefs(I, app, by, 'set', k, I.str('value'))
							yield* prefs(I, app, by, 'set', 'another key', I.str('value'))
							yield* prefs(I, app, by, 'get', k)
							yield* prefs(I, app, by, 'get', 'never set', 'default')
							yield* prefs(I, app, by, 'set', k, undefined)
							yield* prefs(I, app, by, 'set', k, I.fn('handler', function* () {
								return 'text'
							}))
							yield* prefs(I, app, by, 'clearAll')
							yield* prefs(I, app, by, 'clearAll')
						},
						*'preferences, later'() {
							const d = I.deferred()
							const r = yield* prefs(I, app, by, 'set', k, I.fn('handler', function* () {
								return d
							}))
							if (I.pick(['works', 'fails'], 'handler') === 'works') yield* I.fulfill(d, 'text')
							else yield* I.reject(d, I.atom('error', M.OBJ))
							yield* I.settle(r)
						},
						*'preference store'() {
							const s = yield* I.m(yield* I.get(app, 'preferences'), 'createStore', k, I.obj({ a: 1 }))
							yield* I.m(s, 'get')
							yield* I.m(s, 'set', I.str('value'))
							yield* I.m(s, 'get')
							yield* I.m(s, 'set', I.fn('handler', function* () {
								return 1
							}))
							yield* I.m(s, 'set', undefined)
							yield* I.m(s, 'get')
						},
						*'language'() {
							const i = yield* I.get(app, 'i18n')
							I.eq(yield* I.m(i, 'getLanguage'), lang, 'the language is that of the navigator given')
							yield* I.m(i, 'setLanguage', I.word('language', /[a-z-]/))
							yield* I.m(i, 'clearLanguage')
							I.eq(yield* I.m(i, 'getLanguage'), lang, 'the language is that of the navigator given')
							yield* I.m(i, 'clearLanguage')
							yield* I.call(yield* I.imp(PKG('i18n'), 'setLanguageCommand'), 'fr')
						},
						*'a second app'() {
							const i = yield* I.get(app, 'i18n')
							yield* I.m(i, 'setLanguage', 'fr')
							yield* prefs(I, app, 'api', 'set', k, 'text')
							const again = yield* mk()
							I.eq(yield* I.m(yield* I.get(again, 'i18n'), 'getLanguage'), 'fr', 'the language kept is that in the storage given')
							I.eq(yield* prefs(I, again, 'api', 'get', k), 'text', 'and so are the preferences')
						},
						*'fetch'() {
							yield* I.m(app, 'fetch', 'url')
							yield* I.call(yield* I.get(app, 'fetch'), 'url', I.obj({}))
						},
						*'the storages themselves'() {
							for (const [n, given] of [['localStorage', storage], ['sessionStorage', session]]) I.eq(yield* I.get(app, 'browser', n), given, `${n} is the one given`)
						}
					}
					yield* ops[I.pick(Object.keys(ops), 'use')]()
					const es = storageEffects(I, m)
					const foreign = es.filter(e => e.store !== storage)
					I.ok(foreign.length === 0, 'no other storage is read or written', foreign.map(e => `${e.op} on ${I.show(e.store)}`).join(', '))
					I.ok(I.since(m, e => e.t === 'fetch').length === 0, 'the fetch of the browser is not called', '')
				}
			]
		}
	]
}

// ------------------------------------------------------------------ test doubles

const DOUBLES = [['stubLocalStorage', 'localStorage'], ['stubSessionStorage', 'sessionStorage']]
export const X05 = {
	theorems: [
		{
			name: 'stubStorage() is a storage of its own',
			stages: [
				function* (I) {
					const mk = yield* I.imp(PKG('browser'), 'stubStorage', './testing')
					const s = yield* I.call(mk)
					const other = yield* I.call(mk)
					I.eq(yield* I.get(s, 'length'), 0, 'it is empty at first')
					return { s, other, ks: [I.key('key 1'), I.key('key 2'), I.key('key 3')], model: [], m: I.mark() }
				},
				...[1, 2, 3].map(
					i =>
						function* (I, p) {
							const model = p.model.map(e => e.slice())
							const op = I.pick(i === 1 ? ['set 1', 'set 2'] : ['set 1', 'set 2', 'set 3', 'remove 1', 'clear'], `operation ${i}`)
							const put = (k, v) => {
								const e = model.find(x => x[0] === k)
								if (e) e[1] = v
								else model.push([k, v])
							}
							if (op.startsWith('set')) {
								const k = p.ks[Number(op.slice(4)) - 1]
								const v = I.fresh('value', M.STR)
								yield* I.m(p.s, 'setItem', k, v)
								put(k, v)
							} else if (op === 'clear') {
								yield* I.m(p.s, 'clear')
								model.length = 0
							} else {
								yield* I.m(p.s, 'removeItem', p.ks[0])
								const j = model.findIndex(x => x[0] === p.ks[0])
								if (j >= 0) model.splice(j, 1)
							}
							return { ...p, model }
						}
				),
				function* (I, { s, other, ks, model, m }) {
					I.eq(yield* I.get(s, 'length'), model.length, 'its length is the number of entries')
					for (const k of ks) {
						const e = model.find(x => x[0] === k)
						I.eq(yield* I.m(s, 'getItem', k), e ? e[1] : null, 'it gives the value set last, null when there is none')
						I.eq(yield* I.m(other, 'getItem', k), null, 'it shares nothing with another')
					}
					const listed = []
					for (let i = 0; i < model.length; i++) listed.push(yield* I.m(s, 'key', i))
					I.bagEq(listed, model.map(e => e[0]), 'key() lists the keys, one per index')
					I.eq(yield* I.m(s, 'key', model.length), null, 'and null past the last')
					I.ok(storageEffects(I, m).length === 0, 'it uses no storage of the browser', '')
				}
			]
		},
		...DOUBLES.map(([fn, host]) => ({
			name: `${fn}() replaces what is stubbed, and only that`,
			stages: [
				function* (I) {
					const f = yield* I.imp(PKG('browser'), fn, './testing')
					const method = I.pick(['getItem', 'setItem', 'removeItem', 'key', 'clear'], 'method')
					const stubbed = I.pick(['stubbed', 'another stubbed', 'nothing stubbed'], 'stub')
					const r = I.atom('result')
					const stub = I.fn('stub', function* () {
						return r
					})
					const s = yield* I.call(f, stubbed === 'nothing stubbed' ? I.obj({}) : I.obj({ [stubbed === 'stubbed' ? method : method === 'clear' ? 'key' : 'clear']: stub }))
					const as = method === 'key' ? [0] : method === 'clear' ? [] : [I.key('key'), I.str('value')].slice(0, method === 'setItem' ? 2 : 1)
					const m = I.mark()
					const res = yield* I.attempt(I.m(s, method, ...as))
					I.ok(!res.threw, 'the storage can be used', res.threw ? I.show(res.value) : '')
					if (res.threw) return
					if (stubbed === 'stubbed') {
						const c = I.calls(m, stub)
						if (I.ok(c.length === 1, 'a stubbed function runs instead of the real one', '')) I.listEq(c[0].args, as, 'with the arguments')
						I.eq(res.value, r, 'and gives its result')
						I.ok(storageEffects(I, m).length === 0, 'the real storage is not used', '')
					} else {
						I.ok(I.calls(m, stub).length === 0, 'a stub runs for its own function only', '')
						const es = storageEffects(I, m)
						if (method !== 'key') I.ok(es.length > 0 && es.every(e => e.store === I.global(host)), 'what is not stubbed is that of the real storage', '')
					}
				}
			]
		}))
	]
}

// ------------------------------------------------------------------ every part works with just what it requires

/** what to call on an app that has the part; args are opaque */
const PARTS = {
	commands: {
		*make(I) {
			return [yield* gizmo(I, 'commands', 'commandsGizmoFn')]
		},
		*use(I, app) {
			const c = yield* I.get(app, 'commands')
			const k = I.key('id')
			yield* I.m(yield* I.get(c, 'handlers'), 'register', k, I.fn('handler', function* () {}))
			yield* I.m(yield* I.get(c, 'handlers'), 'invoke', k)
			yield* I.m(yield* I.get(c, 'contributions'), 'add', I.obj({ id: k, key: 'ctrl+x' }))
			yield* I.m(c, 'showCommandPalette')
			const cmd = yield* I.call(yield* I.imp(PKG('commands'), 'command'), I.obj({ id: 'p.q', key: 'ctrl+y', mac: 'cmd+y' }), I.fn('command handler', function* () {}))
			yield* I.m(cmd, 'connect', app)
			yield* I.call(cmd)
		}
	},
	keyboard: {
		*make(I) {
			return [yield* gizmo(I, 'keyboard', 'keyboardGizmoFn')]
		},
		*use(I, app) {
			yield* I.m(yield* I.get(app, 'keyboard', 'keyBindingContributions'), 'add', I.obj({ id: I.key('id'), key: 'ctrl+x' }))
		}
	},
	preferences: {
		optional: ['keyboard'],
		*make(I) {
			return [yield* gizmo(I, 'commands', 'commandsGizmoFn'), yield* I.imp(PKG('preferences'), 'memoryPreferencesGizmo')]
		},
		use: usePreferences
	},
	'browser-preferences': {
		optional: ['keyboard'],
		*make(I) {
			return [yield* gizmo(I, 'commands', 'commandsGizmoFn'), yield* gizmo(I, 'browser', 'browserTestGizmoFn', I.obj({ localStorage: I.storage('the storage') }), './testing'), yield* I.imp(PKG('browser-preferences'), 'browserPreferencesGizmo')]
		},
		use: usePreferences
	},
	i18n: {
		optional: ['commands', 'keyboard'],
		*make(I) {
			return [yield* gizmo(I, 'i18n', 'i18nGizmoFn', I.obj({ language: I.word('language', /[a-z-]/) }))]
		},
		use: useI18n
	},
	'browser-i18n': {
		optional: ['commands', 'keyboard'],
		*make(I) {
			return [yield* gizmo(I, 'browser', 'browserTestGizmoFn', I.obj({ localStorage: I.storage('the storage'), navigator: I.obj({ language: I.word('language', /[a-z-]/) }) }), './testing'), yield* I.imp(PKG('browser-i18n'), 'browserI18nGizmo')]
		},
		*use(I, app) {
			yield* useI18n(I, app)
			yield* I.m(yield* I.get(app, 'i18n'), 'clearLanguage')
		}
	},
	browser: {
		optional: ['fetch'],
		*make(I) {
			return [yield* gizmo(I, 'browser', 'browserGizmoFn')]
		},
		*use(I, app) {
			yield* I.call(yield* I.get(app, 'fetch'), 'url')
			yield* I.m(yield* I.get(app, 'browser', 'errors'), 'get')
		}
	},
	'browser-keyboard': {
		*make(I) {
			return [yield* gizmo(I, 'keyboard', 'keyboardGizmoFn'), yield* gizmo(I, 'commands', 'commandsGizmoFn'), yield* I.imp(PKG('os'), 'osGizmo'), yield* I.imp(PKG('browser-keyboard'), 'browserKeyboardGizmo')]
		},
		*use(I, app) {
			yield* PARTS.keyboard.use(I, app)
			yield* PARTS.commands.use(I, app)
		}
	},
	preset: {
		optional: ['keyboard'],
		*make(I) {
			return [yield* gizmo(I, 'commands', 'commandsGizmoFn'), yield* gizmo(I, 'presets-browser', PRESETS[1], I.obj({ browser: I.obj({ localStorage: I.storage('the storage') }) }), './testing')]
		},
		*use(I, app) {
			yield* usePreferences(I, app)
			yield* PARTS.browser.use(I, app)
		}
	},
	routes: {
		*make(I) {
			return [yield* I.imp(PKG('routes'), 'routesGizmo')]
		},
		*use(I, app) {
			const r = yield* I.get(app, 'routes')
			const k = I.key('route')
			yield* I.m(r, 'register', k, I.fn('route handler', function* () {}))
			yield* I.m(r, 'navigate', k)
			yield* I.m(r, 'navigate')
			yield* I.m(r, 'config', I.obj({ initialRoute: k }))
			yield* I.m(r, 'navigate')
			yield* I.m(r, 'hasRoute', 'another')
			yield* I.call(yield* I.m(r, 'register', 'another', I.fn('another handler', function* () {})))
			yield* I.m(r, 'clearRoutes')
		}
	},
	'preferences alone': {
		optional: ['keyboard'],
		*make(I) {
			return [yield* gizmo(I, 'commands', 'commandsGizmoFn'), yield* I.imp(PKG('preferences'), 'preferencesGizmo')]
		},
		/** the client provides what keeps the preferences */
		*use(I, app) {
			const p = yield* I.get(app, 'preferences')
			const hs = yield* I.get(app, 'commands', 'handlers')
			const k = I.key('key')
			const v = I.str('value')
			yield* I.m(p, 'get', k)
			const h = I.fn('handler', function* () {
				return v
			})
			yield* I.m(hs, 'register', 'just-web.getUserPreference', h)
			yield* I.m(hs, 'register', 'just-web.setUserPreference', h)
			yield* I.m(hs, 'register', 'just-web.clearAllUserPreferences', h)
			const m = I.mark()
			I.eq(yield* I.m(p, 'get', k), v, 'a preference is read by the handler of the client')
			yield* I.m(p, 'set', k, v)
			yield* I.m(p, 'clearAll')
			I.ok(I.calls(m, h).length === 3, 'and set and cleared by it', '')
		}
	},
	states: {
		*make(I) {
			return [yield* I.imp(PKG('states'), 'statesGizmo')]
		},
		*use(I, app) {
			const s = yield* I.get(app, 'states')
			const [get, , on, reset] = yield* I.elems(yield* I.m(s, 'createState', 1))
			I.eq(get, 1, 'a state has its value')
			yield* I.call(on, I.fn('handler', function* () {}))
			yield* I.call(reset)
			for (const k of ['createStore', 'createRegistry']) {
				const c = yield* I.m(s, k, I.obj({}))
				yield* I.m(c, 'onChange', I.fn('handler', function* () {}))
				const next = I.obj({ a: 1 })
				yield* I.m(c, 'set', next)
				I.eq(yield* I.m(c, 'get'), next, 'a container gives what it was set to')
				yield* I.m(c, 'reset')
			}
			yield* I.m(yield* I.m(s, 'createRegistry'), 'keys')
		}
	},
	events: {
		*make(I) {
			return [yield* gizmo(I, 'events', 'eventsGizmoFn')]
		},
		*use(I, app) {
			const e = yield* I.get(app, 'events', 'emitter')
			yield* I.m(e, 'emit', 'event', 1)
		}
	},
	history: {
		*make(I) {
			return [yield* gizmo(I, 'history', 'historyGizmoFn')]
		},
		*use(I, app) {
			I.ne(yield* I.get(app, 'history'), undefined, 'the app has a history')
		}
	},
	formatjs: {
		*make(I) {
			return [yield* gizmo(I, 'formatjs', 'formatJSGizmoFn', I.obj({ config: I.obj({ locale: 'en' }) }))]
		},
		*use(I, app) {
			I.ne(yield* I.get(app, 'formatjs', 'intl'), undefined, 'the app has its intl')
		}
	},
	os: {
		*make(I) {
			return [yield* I.imp(PKG('os'), 'osGizmo')]
		},
		*use(I, app) {
			yield* I.m(yield* I.get(app, 'os'), 'isMac')
			yield* I.call(yield* I.get(app, 'os', 'isMac'))
		}
	},
	fetch: {
		optional: ['browser'],
		*make(I) {
			return [yield* I.imp(PKG('fetch'), 'fetchGizmo')]
		},
		*use(I, app) {
			yield* I.m(app, 'fetch', 'url')
			yield* I.call(yield* I.get(app, 'fetch'), 'url', I.obj({}))
		}
	},
	'preset (real)': {
		optional: ['keyboard', 'fetch'],
		*make(I) {
			return [yield* gizmo(I, 'commands', 'commandsGizmoFn'), yield* gizmo(I, 'presets-browser', PRESETS[0])]
		},
		*use(I, app) {
			for (const by of ['api', 'command', 'invoke']) {
				yield* prefs(I, app, by, 'set', 'key', 'value')
				yield* prefs(I, app, by, 'get', 'key')
			}
			yield* PARTS.browser.use(I, app)
			I.ne(yield* I.get(app, 'history'), undefined, 'the app has a history')
		}
	}
}
const OPTIONAL = {
	*keyboard(I) {
		return yield* gizmo(I, 'keyboard', 'keyboardGizmoFn')
	},
	*commands(I) {
		return yield* gizmo(I, 'commands', 'commandsGizmoFn')
	},
	*fetch(I) {
		return yield* I.imp(PKG('fetch'), 'fetchGizmo')
	},
	*browser(I) {
		return yield* gizmo(I, 'browser', 'browserGizmoFn')
	}
}
function* usePreferences(I, app) {
	const k = I.key('key')
	for (const by of ['api', 'command', 'invoke']) {
		yield* prefs(I, app, by, 'set', k, I.str('value'))
		yield* prefs(I, app, by, 'get', k)
		yield* prefs(I, app, by, 'clearAll')
	}
	const s = yield* I.m(yield* I.get(app, 'preferences'), 'createStore', k)
	yield* I.m(s, 'set', I.str('text'))
	yield* I.m(s, 'get')
}
function* useI18n(I, app) {
	const i = yield* I.get(app, 'i18n')
	yield* I.m(i, 'languageChanged', I.fn('handler', function* () {}))
	yield* I.m(i, 'setLanguage', I.word('new language', /[a-z-]/))
	yield* I.m(i, 'getLanguage')
}
export const X07 = {
	theorems: Object.entries(PARTS).map(([part, p]) => ({
		name: `the part works with just what it requires, and with what it may use [${part}]`,
		stages: [
			function* (I) {
				const gs = []
				const with_ = []
				for (const o of p.optional ?? [])
					if (I.pick(['with', 'without'], o) === 'with') {
						with_.push(yield* OPTIONAL[o](I))
					}
				const late = with_.length && I.pick(['before', 'after'], 'the optional parts are added') === 'after'
				if (!late) gs.push(...with_)
				for (const g of yield* p.make(I)) gs.push(g)
				if (late) gs.push(...with_)
				const r = yield* I.attempt(incubateApp(I, gs, { name: I.word('app name', NAME), test: I.pick(['app', 'test app'], 'kind') === 'test app' }))
				I.ok(!r.threw, 'the app can be created', r.threw ? I.show(r.value) : '')
				if (r.threw) I.stop()
				return { app: r.value, p }
			},
			function* (I, { app }) {
				const r = yield* I.attempt(p.use(I, app))
				I.ok(!r.threw, 'its functions work', r.threw ? I.show(r.value) : '')
			}
		]
	}))
}

// ------------------------------------------------------------------ apps of the same parts

/** what the client gives, kept to see that nobody changes it */
function giver(I) {
	const give = v => {
		for (const [r, s] of snapshot(I, [v])) if (!give.all.has(r)) give.all.set(r, s)
		return v
	}
	give.all = new Map()
	return give
}
/** plain objects, arrays and their members, as they are now */
function snapshot(I, roots) {
	const out = new Map()
	const go = v => {
		v = I.resolve(v)
		if (!I.isRef(v) || out.has(v)) return
		const x = I.rd(v)
		if (!x.props || x.isStorage) return
		const props = [...x.props].map(([k, p]) => [k, p.v])
		out.set(v, { props, segs: x.segs?.slice(), proto: x.proto })
		for (const [, c] of props) go(c)
		for (const c of x.segs ?? []) if (!I.isMany(c)) go(c)
	}
	for (const r of roots) go(r)
	return out
}
function unchanged(I, snap, msg) {
	for (const [r, s] of snap) {
		const x = I.rd(r)
		const names = l => l.map(e => String(typeof e[0] === 'symbol' ? e[0].toString() : I.show(e[0]))).join(', ')
		const now = [...x.props].map(([k, p]) => [k, p.v])
		const same = now.length === s.props.length && now.every(([k, v], i) => s.props.some(([k2, v2]) => k2 === k && I.eq3(v, v2) === true))
		I.ok(same, msg, `members were ${names(s.props)}, are ${names(now)}`)
		if (s.segs) I.ok(x.segs.length === s.segs.length && x.segs.every((e, i) => (I.isMany(e) ? e === s.segs[i] : I.eq3(e, s.segs[i]) === true)), msg, 'its elements changed')
		I.ok(x.proto === s.proto, msg, 'its prototype changed')
	}
}
const nop = (I, n = 'function given') => I.fn(n, function* () {})
const SHARED = {
	commands: {
		*make(I, give) {
			const c = I.obj({ id: 'given.command', title: 'Given', key: 'ctrl+g', context: I.arr(['b', 'a']), more: I.obj({ n: 1 }) })
			const before = I.obj({ id: 'zz.first', key: 'ctrl+z' })
			const after = I.obj({ id: 'aa.last', description: 'Last' })
			return [
				yield* gizmo(I, 'keyboard', 'keyboardGizmoFn', give(I.obj({}))),
				yield* gizmo(I, 'commands', 'commandsGizmoFn', give(I.obj({ contributions: I.arr([before, c, after]), handlers: I.obj({ 'z.handler': nop(I), 'given.handler': nop(I), 'a.handler': nop(I) }) })))
			]
		},
		ops: {
			*contribute(I, app, { give }) {
				yield* I.m(yield* I.get(app, 'commands', 'contributions'), 'add', give(I.obj({ id: 'new', key: 'ctrl+n' })))
			},
			*'contribute several'(I, app, { give }) {
				yield* I.m(yield* I.get(app, 'commands', 'contributions'), 'add', give(I.obj({ id: 'new', context: I.arr([1]) })), give(I.obj({ id: 'given.command' })), give(I.obj({ id: 'another', title: '' })))
			},
			*invoke(I, app, { give }) {
				yield* I.m(yield* I.get(app, 'commands', 'handlers'), 'invoke', 'given.handler', give(I.obj({ a: I.arr([2, 1]) })), give(I.arr([3, 1])))
			},
			*'take back'(I, app) {
				const c = yield* I.get(app, 'commands', 'contributions')
				yield* I.m(c, 'set', I.fn('updater', function* ([r]) {
					yield* I.del(r, 'given.command')
				}))
			},
			*register(I, app) {
				yield* I.m(yield* I.get(app, 'commands', 'handlers'), 'register', 'new', nop(I))
			},
			*'register again'(I, app) {
				yield* I.m(yield* I.get(app, 'commands', 'handlers'), 'register', 'given.handler', nop(I))
			},
			*connect(I, app, { give }) {
				const info = give(I.obj({ id: 'new', key: 'ctrl+n', mac: 'cmd+n', title: 'New', context: I.arr(['y', 'x']), handler: nop(I) }))
				const cmd = yield* I.call(yield* I.imp(PKG('commands'), 'command'), info)
				yield* I.m(cmd, 'connect', app, nop(I))
				yield* I.call(cmd, give(I.obj({ b: 1 })))
			},
			*'connect without a handler given'(I, app, { give }) {
				const info = give(I.obj({ id: 'new', description: 'New' }))
				const cmd = yield* I.call(yield* I.imp(PKG('commands'), 'command'), info, nop(I))
				yield* I.m(cmd, 'connect', app)
				yield* I.call(cmd)
			},
			*format(I, app, { give }) {
				const f = yield* I.imp(PKG('commands'), 'formatCommand')
				yield* I.call(f, give(I.obj({ id: 'new.command', key: 'k' })))
				for (const c of yield* I.elems(yield* I.m(yield* I.get(app, 'commands', 'contributions'), 'values'))) yield* I.call(f, c)
			}
		},
		*see(I, app) {
			const c = yield* I.get(app, 'commands', 'contributions')
			const k = yield* I.get(app, 'keyboard', 'keyBindingContributions')
			const out = ['contributions', ...(yield* I.elems(yield* I.m(c, 'keys'))), 'bindings', ...(yield* I.elems(yield* I.m(k, 'keys')))]
			const hs = yield* I.get(app, 'commands', 'handlers')
			for (const id of ['new', 'given.handler']) {
				out.push(yield* I.m(hs, 'has', id))
				const m = I.mark()
				yield* I.m(hs, 'invoke', id)
				out.push(...I.calls(m).map(x => x.fn))
			}
			return out
		}
	},
	keyboard: {
		*make(I, give) {
			return [yield* gizmo(I, 'keyboard', 'keyboardGizmoFn', give(I.obj({ keyBindingContributions: I.arr([I.obj({ id: 'zz', key: 'ctrl+z' }), I.obj({ id: 'given', key: 'ctrl+g', mac: 'cmd+g' }), I.obj({ id: 'aa', mac: 'cmd+a' })]) })))]
		},
		ops: {
			*contribute(I, app, { give }) {
				yield* I.m(yield* I.get(app, 'keyboard', 'keyBindingContributions'), 'add', give(I.obj({ id: 'new', key: 'ctrl+n', mac: 'cmd+n' })))
			},
			*'contribute several'(I, app, { give }) {
				yield* I.m(yield* I.get(app, 'keyboard', 'keyBindingContributions'), 'add', give(I.obj({ id: 'new', key: 'cmd+n' })), give(I.obj({ id: 'given', key: 'x' })), give(I.obj({ id: 'b', mac: 'cmd+b cmd+b' })))
			},
			*format(I, app, { give }) {
				const f = yield* I.imp(PKG('keyboard'), 'formatKeyBinding')
				for (const mac of [true, false]) {
					const os = I.obj({ isMac: I.fn('isMac', function* () {
						return mac
					}) })
					yield* I.call(f, I.obj({ os }), give(I.obj({ id: 'new', key: 'ctrl+n', mac: 'cmd+n' })))
					for (const c of yield* I.elems(yield* I.m(yield* I.get(app, 'keyboard', 'keyBindingContributions'), 'values'))) yield* I.call(f, I.obj({ os }), c)
				}
			},
			*change(I, app) {
				yield* I.m(yield* I.get(app, 'keyboard', 'keyBindingContributions'), 'set', I.fn('updater', function* ([r]) {
					yield* I.set(yield* I.get(r, 'given'), 'key', 'ctrl+x')
				}))
			}
		},
		*see(I, app) {
			const out = []
			for (const b of yield* I.elems(yield* I.m(yield* I.get(app, 'keyboard', 'keyBindingContributions'), 'values'))) for (const k of ['id', 'key', 'mac']) out.push(yield* I.get(b, k))
			return out
		}
	},
	routes: {
		*make(I) {
			return [yield* I.imp(PKG('routes'), 'routesGizmo')]
		},
		ops: {
			*register(I, app) {
				yield* I.m(yield* I.get(app, 'routes'), 'register', '/new', nop(I))
			},
			*configure(I, app, { give }) {
				yield* I.m(yield* I.get(app, 'routes'), 'config', give(I.obj({ initialRoute: '/new' })))
			},
			*'configure and clear'(I, app, { give }) {
				const r = yield* I.get(app, 'routes')
				yield* I.m(r, 'register', '/', nop(I))
				yield* I.m(r, 'config', give(I.obj({ initialRoute: '/other' })))
				yield* I.m(r, 'clearRoutes')
				yield* I.m(r, 'register', '/new', nop(I))
			}
		},
		*see(I, app) {
			const r = yield* I.get(app, 'routes')
			const out = [yield* I.m(r, 'hasRoute', '/'), yield* I.m(r, 'hasRoute', '/new')]
			const m = I.mark()
			yield* I.m(r, 'navigate')
			yield* I.m(r, 'navigate', '/new')
			// the text tells which route is missing
			out.push(...I.logs(m).filter(l => SEVERE.includes(l.method)).flatMap(l => l.args), ...I.calls(m).map(c => c.fn))
			return out
		}
	},
	i18n: {
		*make(I, give) {
			return [yield* gizmo(I, 'i18n', 'i18nGizmoFn', give(I.obj({ language: I.str('initial language') })))]
		},
		ops: {
			*set(I, app) {
				yield* I.m(yield* I.get(app, 'i18n'), 'setLanguage', 'fr')
			},
			*watch(I, app) {
				yield* I.m(yield* I.get(app, 'i18n'), 'languageChanged', nop(I))
			}
		},
		*see(I, app) {
			const i = yield* I.get(app, 'i18n')
			const l = yield* I.m(i, 'getLanguage')
			const m = I.mark()
			yield* I.m(i, 'setLanguage', 'xx')
			const told = I.calls(m).map(c => c.fn)
			yield* I.m(i, 'setLanguage', l)
			return [l, ...told]
		}
	},
	'memory preferences': {
		*make(I, give) {
			return [yield* gizmo(I, 'commands', 'commandsGizmoFn', give(I.obj({}))), yield* I.imp(PKG('preferences'), 'memoryPreferencesGizmo')]
		},
		ops: {
			*set(I, app) {
				yield* prefs(I, app, 'api', 'set', 'k', 'v')
			},
			*clear(I, app) {
				yield* prefs(I, app, 'api', 'clearAll')
			},
			*store(I, app, { give }) {
				const s = yield* I.m(yield* I.get(app, 'preferences'), 'createStore', 'k', give(I.obj({ a: I.obj({ b: 1 }) })))
				yield* I.m(s, 'set', I.fn('updater', function* ([v]) {
					yield* I.set(yield* I.get(v, 'a'), 'b', 2)
				}))
				yield* I.m(s, 'set', give(I.obj({ a: I.obj({ b: 3 }) })))
				yield* I.m(s, 'set', I.fn('updater', function* ([v]) {
					yield* I.set(yield* I.get(v, 'a'), 'b', 4)
				}))
			},
			*'a store of a list'(I, app, { give }) {
				const s = yield* I.m(yield* I.get(app, 'preferences'), 'createStore', 'k', give(I.arr(['d', 'c'])))
				yield* I.m(s, 'get')
				yield* I.m(s, 'set', I.fn('updater', function* ([v]) {
					yield* I.m(v, 'push', 'b')
				}))
				yield* I.m(s, 'set', give(I.arr(['z', 'b', 'a'])))
				yield* I.m(s, 'get')
				yield* I.m(s, 'set', I.fn('updater', function* () {
					return give(I.arr(['y', 'b', 'a']))
				}))
			}
		},
		*see(I, app) {
			return [yield* prefs(I, app, 'api', 'get', 'k'), yield* prefs(I, app, 'invoke', 'get', 'k')]
		}
	},
	browser: {
		*make(I, give) {
			return [yield* gizmo(I, 'browser', 'browserGizmoFn', give(I.obj({ preventDefault: true, fetch: nop(I) })))]
		},
		ops: {
			*fail(I, app, { listeners }) {
				yield* I.call(listeners[0], I.obj({ message: 'failed', filename: 'f', lineno: 1, colno: 2, error: undefined, preventDefault: nop(I) }))
			},
			*watch(I, app) {
				yield* I.m(yield* I.get(app, 'browser', 'errors'), 'onChange', nop(I))
			}
		},
		*see(I, app) {
			const out = []
			for (const e of yield* I.elems(yield* I.m(yield* I.get(app, 'browser', 'errors'), 'get'))) out.push(yield* I.get(e, 'message'))
			out.push(yield* I.get(app, 'fetch'))
			return out
		}
	},
	log: {
		*make() {
			return []
		},
		*log(I, give) {
			return give(I.obj({ customLevels: I.obj({ loud: 55, aloud: 44 }), logLevel: 500 }))
		},
		ops: {
			*log(I, app, { give }) {
				yield* I.m(yield* I.get(app, 'log'), 'loud', 'text', give(I.obj({ a: I.arr([2, 1]) })), give(I.arr([3, 1])))
			},
			*'a logger'(I, app, { give }) {
				const l = yield* I.m(yield* I.get(app, 'log'), 'getLogger', 'logger', give(I.obj({ level: 300 })))
				yield* I.m(l, 'error', give(I.arr([3, 1])))
			},
			*'a prefixed logger'(I, app, { give }) {
				const f = yield* I.call(yield* I.imp(PKG('app'), 'createPrefixedGetLogger'), app, 'prefix')
				yield* I.m(yield* I.call(f, 'logger', give(I.obj({ level: 300 }))), 'error', 'text')
			}
		},
		*see(I, app) {
			const log = yield* I.get(app, 'log')
			const out = []
			for (const l of ['error', 'info', 'loud', 'aloud', 'quiet']) out.push(typeof (yield* I.get(log, l)) === 'undefined' ? 'missing' : 'there')
			return out
		},
		own: ['log']
	},
	formatjs: {
		*make(I, give) {
			const messages = I.obj({ hello: 'Hello', bye: I.arr([I.obj({ type: 0, value: 'Bye' })]) })
			const config = I.obj({ locale: 'fr', messages, formats: I.obj({}), onError: nop(I) })
			return [yield* gizmo(I, 'formatjs', 'formatJSGizmoFn', give(I.pick(['with a cache', 'without a cache'], 'options') === 'with a cache' ? I.obj({ config, cache: I.obj({ message: I.obj({}) }) }) : I.obj({ config })))]
		},
		ops: { *nothing() {} },
		*see() {
			return []
		},
		own: ['formatjs', 'intl']
	},
	'fetch, history and os': {
		*make(I, give) {
			return [
				yield* gizmo(I, 'fetch', 'fetchTestGizmoFn', give(I.obj({ fetch: nop(I, 'fetch given') })), './testing'),
				yield* gizmo(I, 'history', 'historyGizmoFn', give(I.obj({ history: I.obj({ location: I.obj({ pathname: '/' }) }) }))),
				yield* gizmo(I, 'os', 'osTestGizmoFn', give(I.obj({ isMac: nop(I, 'isMac given') })), './testing')
			]
		},
		ops: {
			*use(I, app, { give }) {
				yield* I.m(app, 'fetch', 'url', give(I.obj({ headers: I.obj({ a: 'b' }) })))
				yield* I.m(yield* I.get(app, 'os'), 'isMac')
			}
		},
		*see(I, app) {
			return [yield* I.get(app, 'fetch'), yield* I.get(app, 'history')]
		}
	},
	'browser for tests': {
		*make(I, give) {
			return [
				yield* gizmo(I, 'commands', 'commandsGizmoFn', give(I.obj({}))),
				yield* gizmo(I, 'browser', 'browserTestGizmoFn', give(I.obj({ navigator: I.obj({ language: 'en', languages: I.arr(['en', 'de']) }), location: I.obj({ hash: '' }), localStorage: I.storage('the storage') })), './testing'),
				yield* I.imp(PKG('browser-preferences'), 'browserPreferencesGizmo'),
				yield* I.imp(PKG('browser-i18n'), 'browserI18nGizmo')
			]
		},
		ops: {
			*fail(I, app, { listeners }) {
				yield* I.call(listeners[0], I.obj({ message: 'failed', filename: 'f', lineno: 1, colno: 2, error: undefined, preventDefault: nop(I) }))
			},
			*language(I, app) {
				const i = yield* I.get(app, 'i18n')
				yield* I.m(i, 'languageChanged', nop(I))
				yield* I.m(i, 'setLanguage', 'fr')
				yield* I.m(i, 'clearLanguage')
			},
			*preferences(I, app, { give }) {
				const s = yield* I.m(yield* I.get(app, 'preferences'), 'createStore', 'k', give(I.obj({ a: I.arr([2, 1]) })))
				yield* I.m(s, 'set', I.fn('updater', function* ([v]) {
					yield* I.m(yield* I.get(v, 'a'), 'push', 3)
				}))
				yield* I.m(s, 'set', give(I.obj({ a: I.arr([4, 3]) })))
				yield* I.m(s, 'set', give(I.arr(['z', 'b', 'a'])))
				yield* I.m(s, 'set', undefined)
			}
		},
		*see(I, app) {
			const b = yield* I.get(app, 'browser')
			return [yield* I.get(b, 'navigator'), yield* I.get(b, 'location'), yield* I.m(yield* I.get(app, 'i18n'), 'getLanguage'), ...(yield* SHARED.browser.see(I, app)).slice(0, -1)]
		}
	},
	events: {
		*make(I) {
			return [yield* gizmo(I, 'events', 'eventsGizmoFn')]
		},
		ops: { *nothing() {} },
		*see() {
			return []
		},
		own: ['events', 'emitter']
	},
	states: {
		*make(I) {
			return [yield* I.imp(PKG('states'), 'statesGizmo')]
		},
		ops: {
			*set(I, app, x) {
				yield* I.m(x.store, 'set', 'changed')
			},
			*edit(I, app, x) {
				yield* I.m(x.store, 'set', I.fn('updater', function* ([d]) {
					yield* I.set(d, 'a', 'edited')
				}))
				yield* I.m(x.store, 'set', x.give(I.obj({ a: 'other', list: I.arr([1, 2]) })))
				yield* I.m(x.store, 'set', I.fn('updater', function* ([d]) {
					yield* I.set(d, 'a', 'edited')
					yield* I.m(yield* I.get(d, 'list'), 'push', 3)
				}))
				yield* I.m(x.store, 'reset')
			},
			*'edit a list'(I, app, x) {
				const st = yield* I.get(app, 'states')
				const s = yield* I.m(st, 'createStore', x.give(I.arr(['d', 'c'])))
				for (const f of ['push', 'unshift']) {
					const s2 = yield* I.call(yield* I.imp(PKG('states'), 'withAdder'), s, yield* I.imp(PKG('states'), f))
					yield* I.m(s2, 'add', 'b', 'a')
					yield* I.m(s2, 'set', x.give(I.arr(['z', 'b', 'a'])))
				}
				yield* I.m(s, 'reset')
			},
			*'edit a registry'(I, app, x) {
				const r = yield* I.m(yield* I.get(app, 'states'), 'createRegistry', x.give(I.obj({ k: I.obj({ n: 1 }) })))
				yield* I.m(r, 'set', I.fn('updater', function* ([d]) {
					yield* I.set(d, 'other', 1)
					yield* I.set(yield* I.get(d, 'k'), 'n', 2)
				}))
			},
			*watch(I, app, x) {
				yield* I.m(x.store, 'onChange', nop(I))
			}
		},
		*setup(I, app, give, shared) {
			const init = (shared.init ??= give(I.obj({ a: 'initial' })))
			return { store: yield* I.m(yield* I.get(app, 'states'), 'createStore', init) }
		},
		*see(I, app, x) {
			const v = yield* I.m(x.store, 'get')
			const m = I.mark()
			yield* I.m(x.store, 'set', 'x')
			const told = I.calls(m).map(c => c.fn)
			yield* I.m(x.store, 'set', v)
			return [I.isRef(v) ? yield* I.get(v, 'a') : v, ...told]
		}
	},
	'browser preset': {
		*make(I, give) {
			return [
				yield* gizmo(I, 'commands', 'commandsGizmoFn', give(I.obj({}))),
				yield* gizmo(I, 'presets-browser', PRESETS[1], give(I.obj({ browser: I.obj({ fetch: nop(I), preventDefault: true }), history: I.obj({ history: I.atom('history given', M.OBJ) }) })), './testing')
			]
		},
		ops: {
			*fail(I, app, { listeners }) {
				yield* I.call(listeners[0], I.obj({ message: 'failed', filename: 'f', lineno: 1, colno: 2, error: undefined, preventDefault: nop(I) }))
			}
		},
		*see(I, app) {
			return yield* SHARED.browser.see(I, app)
		}
	}
}
const sharedStart = part => function* (I) {
	const p = SHARED[part]
	const give = giver(I)
	const gs = yield* p.make(I, give)
	const log = p.log ? yield* p.log(I, give) : undefined
	const shared = {}
	const mk = function* () {
		const m = I.mark()
		const app = yield* incubateApp(I, gs, log ? { name: 'x', log } : { name: 'x' })
		const listeners = I.since(m, e => e.t === 'listen' && e.op === 'add').map(e => e.fn)
		return { app, listeners, give, ...(p.setup ? yield* p.setup(I, app, give, shared) : {}) }
	}
	return { p, gs, mk, give }
}
export const X08 = {
	explanation: 'Two apps are composed of the very same gizmo values and options; whatever is done to one, what the other shows is compared before and after.',
	theorems: Object.keys(SHARED).map(part => ({
		name: `what is done to one app does not show in another made of the same parts [${part}]`,
		stages: [
			function* (I) {
				const { p, mk } = yield* sharedStart(part)(I)
				const late = I.pick(['both exist', 'the other is made later'], 'history') !== 'both exist'
				const a = yield* mk()
				const fresh = yield* p.see(I, a.app, a)
				let b = late ? null : yield* mk()
				if (b) I.listEq(yield* p.see(I, b.app, b), fresh, 'apps of the same parts start alike')
				if (b && p.own) I.ok((yield* I.get(a.app, ...p.own)) !== (yield* I.get(b.app, ...p.own)), `each app has its own ${p.own.join('.')}`, '')
				const [x, y] = !late && I.pick(['the first', 'the second'], 'used') === 'the second' ? [b, a] : [a, b]
				for (let i = 0; i < (I.deep ? 2 : 1); i++) yield* p.ops[I.pick(Object.keys(p.ops), 'operation')](I, x.app, x)
				const other = y ?? (yield* mk())
				I.listEq(yield* p.see(I, other.app, other), fresh, 'the other app shows what it showed')
			}
		]
	}))
}
export const X09 = {
	explanation: 'Snapshots of every object the client hands to a part (options, contributions, records, initial values), down to their members, are compared after the app is made and used.',
	theorems: Object.keys(SHARED).filter(p => p !== 'events').map(part => ({
		name: `what an app is given stays as it was [${part}]`,
		stages: [
			function* (I) {
				const { p, mk, give } = yield* sharedStart(part)(I)
				const a = yield* mk()
				unchanged(I, give.all, 'creating an app leaves what it is given as it was')
				for (let i = 0; i < (I.deep ? 2 : 1); i++) yield* p.ops[I.pick(Object.keys(p.ops), 'operation')](I, a.app, a)
				yield* p.see(I, a.app, a)
				unchanged(I, give.all, 'using an app leaves what it was given as it was')
			}
		]
	}))
}
