// What the type checker lets a program do: compile-fail witnesses with compiling twins.
import { witnessRule } from '../types.mjs'

const GIZMOS = {
	keyboard: { from: '@just-web/keyboard', imp: 'keyboardGizmoFn', use: 'keyboardGizmoFn()', gives: 'keyboard' },
	commands: { from: '@just-web/commands', imp: 'commandsGizmoFn', use: 'commandsGizmoFn()', gives: 'commands' },
	states: { from: '@just-web/states', imp: 'statesGizmo', use: 'statesGizmo', gives: 'states' },
	os: { from: '@just-web/os', imp: 'osGizmo', use: 'osGizmo', gives: 'os' },
	browser: { from: '@just-web/browser', imp: 'browserGizmoFn', use: 'browserGizmoFn()', gives: 'browser' },
	fetch: { from: '@just-web/fetch', imp: 'fetchGizmo', use: 'fetchGizmo', gives: 'fetch' }
}
const IMPORT = (names, from) => `import { ${names} } from '${from}'`
const prelude = parts => [...new Set(parts.map(k => IMPORT(GIZMOS[k].imp, GIZMOS[k].from)))].join('\n')
const chain = parts => parts.map(k => `.with(${GIZMOS[k].use})`).join('')

const REQUIRES = [
	{ name: 'browserKeyboardGizmo', from: '@just-web/browser-keyboard', file: 'plugins/browser-keyboard/src/browser_keyboard_gizmo.ts', needs: ['keyboard', 'commands', 'os'] },
	{ name: 'preferencesGizmo', from: '@just-web/preferences', file: 'plugins/preferences/src/preferences_gizmo.ts', needs: ['commands'] },
	{ name: 'memoryPreferencesGizmo', from: '@just-web/preferences', file: 'plugins/preferences/src/memory_preferences_gizmo.ts', needs: ['commands'] },
	{ name: 'browserPreferencesGizmo', from: '@just-web/browser-preferences', file: 'plugins/browser-preferences/src/browser_preferences_gizmo.ts', needs: ['commands', 'browser'] },
	{ name: 'browserI18nGizmo', from: '@just-web/browser-i18n', file: 'plugins/browser-i18n/src/browser_i18n_gizmo.ts', needs: ['browser'] },
	{ name: 'presetsBrowserGizmoFn', use: 'presetsBrowserGizmoFn()', from: '@just-web/presets-browser', file: 'presets/browser/src/presets_browser_gizmo.ts', needs: ['commands'] }
]
// what an app has by itself: needed when a gizmo is used without an app
const BARE = [
	{ name: 'keyboardGizmoFn', use: 'keyboardGizmoFn()', from: '@just-web/keyboard', file: 'plugins/keyboard/src/keyboard_gizmo.ts', needs: ['log'] },
	{ name: 'commandsGizmoFn', use: 'commandsGizmoFn()', from: '@just-web/commands', file: 'plugins/commands/src/commands_gizmo.ts', needs: ['log'] },
	{ name: 'routesGizmo', from: '@just-web/routes', file: 'plugins/routes/src/routes_gizmo.ts', needs: ['log'] },
	{ name: 'eventsGizmoFn', use: 'eventsGizmoFn()', from: '@just-web/events', file: 'plugins/events/src/events_gizmo.ts', needs: ['log'] },
	{ name: 'browserGizmoFn', use: 'browserGizmoFn()', from: '@just-web/browser', file: 'plugins/browser/src/browser_gizmo.ts', needs: ['log'] },
	{ name: 'statesGizmo', from: '@just-web/states', file: 'libraries/states/src/states_gizmo.ts', needs: ['log'] },
	{ name: 'logGizmoFn', use: 'logGizmoFn()', from: '@just-web/log', file: 'frameworks/log/src/log_gizmo.ts', needs: ['id'] },
	{ name: 'browserI18nGizmo', from: '@just-web/browser-i18n', file: 'plugins/browser-i18n/src/browser_i18n_gizmo.ts', needs: ['id', 'browser'] },
	{ name: 'browserPreferencesGizmo', from: '@just-web/browser-preferences', file: 'plugins/browser-preferences/src/browser_preferences_gizmo.ts', needs: ['id', 'log', 'commands', 'browser'] },
	{ name: 'browserKeyboardGizmo', from: '@just-web/browser-keyboard', file: 'plugins/browser-keyboard/src/browser_keyboard_gizmo.ts', needs: ['log', 'keyboard', 'commands', 'os'] },
	{ name: 'presetsBrowserGizmoFn', use: 'presetsBrowserGizmoFn()', from: '@just-web/presets-browser', file: 'presets/browser/src/presets_browser_gizmo.ts', needs: ['id', 'log', 'commands'] }
]
const TYPES = {
	id: ['IdGizmo', '@just-web/id'],
	log: ['LogGizmo', '@just-web/log'],
	keyboard: ['KeyboardGizmo', '@just-web/keyboard'],
	commands: ['CommandsGizmo', '@just-web/commands'],
	os: ['OSGizmo', '@just-web/os'],
	browser: ['BrowserGizmo', '@just-web/browser']
}

export const X01 = {
	explanation: 'Compile-fail witnesses over the public entries of the current sources: for every gizmo and every part it requires, the app that lacks just this part must be rejected by the type checker, and the app that has all of them accepted.',
	rules: [
		witnessRule('an app that lacks a part a gizmo requires does not compile', () =>
			REQUIRES.map(r => {
				const parts = r.needs
				const use = r.use ?? r.name
				const app = ps => `export const app = await justApp({ name: 'n' })${chain(ps)}.with(${use}).create()`
				return {
					name: r.name,
					prelude: [`import { justApp } from '@just-web/app'`, prelude(parts), IMPORT(r.name, r.from)].join('\n'),
					good: [app(parts), app(['fetch', ...parts].filter((k, i, a) => a.indexOf(k) === i))],
					bad: [...parts.map(x => app(parts.filter(y => y !== x))), parts.length > 1 ? app([]) : null].filter(Boolean),
					loc: r.file
				}
			}).map(w => ({ ...w, prelude: w.prelude.includes('fetchGizmo') ? w.prelude : `${w.prelude}\n${prelude(['fetch'])}` }))
		),
		witnessRule('creating a gizmo by hand needs all it requires', () =>
			BARE.map(r => {
				const use = r.use ?? r.name
				const make = ps => `declare const ctx: ${ps.map(p => TYPES[p][0]).join(' & ') || '{}'}; export const x = ${use}.create(ctx)`
				return {
					name: r.name,
					prelude: [...r.needs.map(p => `import type { ${TYPES[p][0]} } from '${TYPES[p][1]}'`), IMPORT(r.name, r.from)].join('\n'),
					good: [make(r.needs)],
					bad: r.needs.map(x => make(r.needs.filter(y => y !== x))),
					loc: r.file
				}
			})
		),
		witnessRule('an app has the parts of its gizmos, and no others', () => [
			...Object.values(GIZMOS).map(g => ({
				name: g.imp,
				prelude: [`import { justApp } from '@just-web/app'`, IMPORT(g.imp, g.from)].join('\n'),
				good: [`const app = await justApp({ name: 'n' }).with(${g.use}).create(); export const x = app.${g.gives}`, `const app = await justApp({ name: 'n' }).with(${g.use}).create(); export const y: string = app.id`],
				bad: [`const app = await justApp({ name: 'n' }).create(); export const x = app.${g.gives}`, `const app = await justApp({ name: 'n' }).with(${g.use}).create(); export const x: { notThere: 1 } = app.${g.gives}`],
				loc: 'frameworks/app/src/just_app.ts'
			})),
			{
				name: 'justApp',
				prelude: `import { justApp } from '@just-web/app'\nimport { justTestApp } from '@just-web/app/testing'`,
				good: [`export const a = justApp({ name: 'n' })`, `export const a = justTestApp()`, `const a = await justTestApp().create(); export const r = a.log.reporter`],
				bad: [`export const a = justApp()`, `export const a = justApp({})`, `export const a = justApp({ name: 1 })`],
				loc: 'frameworks/app/src/just_app.ts'
			}
		])
	]
}

export const X06 = {
	explanation: 'Compile-fail witnesses over the public entries of the current sources: each misuse must be rejected by the type checker, and its correct twin accepted.',
	rules: [
		witnessRule('states', () => [
			{
				name: 'read-only views',
				prelude: `import { createState, createStore, createRegistry, toReadonlyStore, toReadonlyRegistry } from '@just-web/states'\nconst s = toReadonlyStore(createStore(1)); const r = toReadonlyRegistry(createRegistry<string, number>({ a: 1 }))`,
				good: [`export const x: number = s.get()`, `s.onChange((v, p) => { const n: number = v + p; void n })`, `export const x: string[] = r.keys()`, `export const x: number = r.get()['a']`, `r.onChange(v => { const n: number = v['a']; void n })`, `export const x: boolean = r.has('a')`, `export const x: number = r.size()`, `export const x: number[] = r.values()`],
				bad: [`s.set(2)`, `s.reset()`, `r.set({})`, `r.reset()`, `export const x: string = s.get()`, `export const x: number = r.keys()[0]`, `s.onChange((v: string) => {})`, `export const x: string = r.values()[0]`, `export const x: string = r.get()['a']`, `export const x: string = r.size()`, `export const x: string = r.has('a')`, `r.has(Symbol())`, `r.onChange((v: string) => {})`, `s.onChange(1)`, `s.onChange()`],
				loc: 'libraries/states/src/store.ts'
			},
			{
				name: 'values and updaters',
				prelude: `import { createState, createStore, createRegistry, nothing } from '@just-web/states'\nconst s = createStore<{ a: number }>({ a: 1 }); const [v, set, onChange, reset] = createState<number>(1)`,
				good: [`s.set({ a: 2 })`, `s.set(d => { d.a = 2 })`, `s.set(d => ({ a: d.a + 1 }))`, `export const x: Promise<{ a: number }> = s.set(async d => ({ a: d.a + 1 }))`, `set(2)`, `set(x => x + 1)`, `onChange((a, b) => { const n: number = a + b; void n })`, `reset()`, `export const x: number = v`, `export const off: () => void = onChange(() => {})`],
				bad: [`s.set({ a: 'x' })`, `s.set({})`, `s.set(d => ({ a: 'x' }))`, `s.set(d => { d.b = 2 })`, `set('x')`, `set(x => 'x')`, `onChange((a: string) => {})`, `export const x: string = v`, `reset(1)`, `export const x: Promise<{ a: number }> = s.set({ a: 1 })`, `export const x: { a: number } = s.set(async d => ({ a: 1 }))`],
				loc: 'libraries/states/src/state.ts'
			},
			{
				name: 'registries',
				prelude: `import { createRegistry, withAdder } from '@just-web/states'\nconst r = createRegistry<string, { n: number }>({ a: { n: 1 } }); const w = withAdder(r, (rec, e) => { rec['k'] = e })`,
				good: [`r.set({ b: { n: 2 } })`, `r.set(d => { d['c'] = { n: 3 } })`, `w.add({ n: 1 }, { n: 2 })`, `export const x: { n: number }[] = r.values()`],
				bad: [`r.set({ b: { n: 'x' } })`, `r.set({ b: 1 })`, `r.set(d => { d['c'] = 1 })`, `export const x: string[] = r.values()`],
				loc: 'libraries/states/src/registry.ts'
			}
		]),
		witnessRule('commands and key bindings', () => [
			{
				name: 'a command has the signature of its handler',
				prelude: `import { justApp } from '@just-web/app'\nimport { command, commandsGizmoFn } from '@just-web/commands'\nconst c = command<(a: number, b?: string) => string>('p.c'); const d = command('p.d', (a: number) => a); const e = command({ id: 'p.e', key: 'ctrl+e' }, (a: number) => a)\nconst app = await justApp({ name: 'n' }).with(commandsGizmoFn()).create(); const bare = await justApp({ name: 'n' }).create()`,
				good: [`export const x: string = c(1, 'a')`, `c(1)`, `export const x: string = c.id`, `export const x: number = e(1)`, `e.connect(app)`, `c.connect(app, a => String(a))`, `d.connect(app)`, `e.connect(app, a => a + 1)`],
				bad: [`c()`, `c('a')`, `c(1, 2)`, `export const x: number = c(1)`, `e('x')`, `export const x: string = e(1)`, `c.connect(bare)`, `c.connect(app, (a: string) => a)`, `command({ key: 'ctrl+e' })`, `command()`],
				loc: 'plugins/commands/src/command.ts'
			},
			{
				name: 'registries of an app',
				prelude: `import { justApp } from '@just-web/app'\nimport { commandsGizmoFn } from '@just-web/commands'\nimport { keyboardGizmoFn } from '@just-web/keyboard'\nconst app = await justApp({ name: 'n' }).with(keyboardGizmoFn()).with(commandsGizmoFn()).create()`,
				good: [`app.commands.contributions.add({ id: 'a.b' })`, `app.commands.contributions.add({ id: 'a.b', title: 't', description: 'd', commandPalette: false })`, `app.commands.handlers.register('a.b', () => {})`, `app.commands.handlers.invoke('a.b', 1, 'x')`, `app.keyboard.keyBindingContributions.add({ id: 'a.b', key: 'ctrl+k' })`, `app.keyboard.keyBindingContributions.add({ id: 'a.b', key: 'ctrl+k', mac: 'cmd+k' })`],
				bad: [`app.commands.contributions.add({ title: 't' })`, `app.commands.contributions.add({ id: 1 })`, `app.commands.handlers.register('a.b', 1)`, `app.commands.handlers.register('a.b')`, `app.commands.handlers.set({})`, `app.commands.handlers.invoke()`, `app.keyboard.keyBindingContributions.add({ key: 'ctrl+k' })`, `commandsGizmoFn({ handlers: { a: 1 } })`, `commandsGizmoFn({ contributions: [{ title: 't' }] })`, `keyboardGizmoFn({ keyBindingContributions: [{ key: 'k' }] })`],
				loc: 'plugins/commands/src/types.ts'
			}
		]),
		witnessRule('preferences, languages, routes, errors', () => [
			{
				name: 'preferences',
				prelude: `import { justApp } from '@just-web/app'\nimport { commandsGizmoFn } from '@just-web/commands'\nimport { memoryPreferencesGizmo } from '@just-web/preferences'\nconst app = await justApp({ name: 'n' }).with(commandsGizmoFn()).with(memoryPreferencesGizmo).create(); const p = app.preferences; const s = p.createStore<{ n: number }>('k', { n: 1 })`,
				good: [`export const x: string | undefined = p.get('k')`, `p.get('k', 'd')`, `p.set('k', 'v')`, `p.set('k', v => v + 'x')`, `p.clearAll()`, `s.set({ n: 2 })`, `s.set(d => { d!.n = 2 })`, `export const x: number | undefined = s.get()?.n`, `p.createStore('k', [1, 'a', null])`, `p.set('k', undefined)`, `s.set(async d => ({ n: 3 }))`, `p.createStore<string>('k')`],
				bad: [`p.get()`, `p.set('k', 1)`, `p.set('k', v => 1)`, `p.set()`, `s.set({ n: 'x' })`, `s.set(1)`, `export const x: string | undefined = s.get()`, `p.createStore('k', () => 1)`, `p.createStore('k', Symbol())`, `export const x: number = p.get('k')`, `export const x: string = p.get('k')`, `p.get(1)`, `p.get('k', 1)`, `p.set(1, 'v')`, `s.set(d => 'x')`, `p.createStore<{ n: number }>('k', { n: 'x' })`, `p.createStore()`, `s.reset()`],
				loc: 'plugins/preferences/src/preferences_gizmo.ts'
			},
			{
				name: 'languages',
				prelude: `import { justApp } from '@just-web/app'\nimport { i18nGizmoFn } from '@just-web/i18n'\nimport { browserGizmoFn } from '@just-web/browser'\nimport { browserI18nGizmo } from '@just-web/browser-i18n'\nconst app = await justApp({ name: 'n' }).with(i18nGizmoFn({ language: 'en' })).create(); const b = await justApp({ name: 'n' }).with(browserGizmoFn()).with(browserI18nGizmo).create()`,
				good: [`export const x: string = app.i18n.getLanguage()`, `app.i18n.setLanguage('en')`, `app.i18n.languageChanged((l, p) => { const s: string = l + p; void s })`, `b.i18n.clearLanguage()`, `b.i18n.setLanguage('en')`],
				bad: [`app.i18n.setLanguage(1)`, `app.i18n.setLanguage()`, `app.i18n.clearLanguage()`, `export const x: number = app.i18n.getLanguage()`, `app.i18n.languageChanged((l: number) => {})`, `i18nGizmoFn()`, `i18nGizmoFn({})`, `b.i18n.setLanguage(1)`, `export const x: number = b.i18n.getLanguage()`, `b.i18n.languageChanged(1)`, `i18nGizmoFn({ language: 1 })`],
				loc: 'plugins/i18n/src/i18n_gizmo.ts'
			},
			{
				name: 'routes',
				prelude: `import { justApp } from '@just-web/app'\nimport { routesGizmo } from '@just-web/routes'\nconst app = await justApp({ name: 'n' }).with(routesGizmo).create()`,
				good: [`app.routes.register('r', () => {})`, `app.routes.navigate('r')`, `app.routes.hasRoute('r')`, `app.routes.config({ initialRoute: 'r' })`, `export const x: boolean = app.routes.hasRoute('r')`, `app.routes.navigate()`, `const off: () => void = app.routes.register('r', () => {}); off()`, `app.routes.clearRoutes()`],
				bad: [`app.routes.register('r')`, `app.routes.register('r', (id: string) => id.length)`, `app.routes.register('r', 1)`, `app.routes.navigate(1)`, `app.routes.hasRoute()`, `app.routes.config({ initialRoute: 1 })`, `app.routes.config({})`, `app.routes.config()`, `app.routes.register(1, () => {})`, `export const x: string = app.routes.hasRoute('r')`, `app.routes.register()`],
				loc: 'plugins/routes/src/routes_gizmo.ts'
			},
			{
				name: 'errors of the browser',
				prelude: `import { justApp } from '@just-web/app'\nimport { browserGizmoFn } from '@just-web/browser'\nconst app = await justApp({ name: 'n' }).with(browserGizmoFn()).create()`,
				good: [`export const x: string = app.browser.errors.get()[0].message`, `app.browser.errors.onChange(es => { const n: number = es.length; void n })`, `export const x: Storage = app.browser.localStorage`, `app.fetch('u')`, `browserGizmoFn({ preventDefault: true })`],
				bad: [`app.browser.errors.set([])`, `app.browser.errors.reset()`, `app.browser.errors.add(new Error())`, `browserGizmoFn({ preventDefault: 'x' })`, `browserGizmoFn({ fetch: 1 })`, `app.fetch()`],
				loc: 'plugins/browser/src/browser_gizmo.ts'
			}
		]),
		witnessRule('options of the parts', () => [
			{
				name: 'the app and its log',
				prelude: `import { justApp } from '@just-web/app'\nconst app = await justApp({ name: 'n' }).create()`,
				good: [`export const x: string = app.name`, `export const x: string = app.id`, `app.log.info('a', 1, {})`, `app.log.getLogger('a').error('b')`, `justApp({ name: 'n', log: { logLevel: 500 } })`],
				bad: [`justApp({ name: 'n', log: { logLevel: 'x' } })`, `justApp({ name: 'n', log: { reporters: 1 } })`, `justApp({ name: 'n', log: 1 })`, `app.log.nothing('a')`, `export const x: number = app.name`, `app.log.getLogger(1)`],
				loc: 'frameworks/log/src/log_gizmo.types.ts'
			},
			{
				name: 'states of an app',
				prelude: `import { justApp } from '@just-web/app'\nimport { statesGizmo } from '@just-web/states'\nconst app = await justApp({ name: 'n' }).with(statesGizmo).create(); const s = app.states.createStore<{ a: number }>({ a: 1 }); const r = app.states.createRegistry<string, number>(); const [v, set, onChange, reset] = app.states.createState<number>(1)`,
				good: [`s.set({ a: 2 })`, `s.set(d => { d.a = 2 })`, `r.set(d => { d['b'] = 2 })`, `export const x: number[] = r.values()`, `set(v + 1)`, `onChange((a, b) => { const n: number = a + b; void n })`, `reset()`],
				bad: [`s.set({ a: 'x' })`, `s.set(1)`, `r.set({ b: 'x' })`, `export const x: string[] = r.values()`, `set('x')`, `onChange((a: string) => {})`, `export const x: string = v`, `export const x: string = s.get()`, `app.states.createStore()`, `app.states.createStore(1, { logger: 1 })`],
				loc: 'libraries/states/src/states_gizmo.ts'
			},
			{
				name: 'events, history, languages and the system',
				prelude: `import { justApp } from '@just-web/app'\nimport { eventsGizmoFn } from '@just-web/events'\nimport { historyGizmoFn } from '@just-web/history'\nimport { formatJSGizmoFn } from '@just-web/formatjs'\nimport { osGizmo } from '@just-web/os'\nconst app = await justApp({ name: 'n' }).with(eventsGizmoFn()).with(historyGizmoFn()).with(formatJSGizmoFn({ config: { locale: 'en' } })).with(osGizmo).create()`,
				good: [`app.events.emitter.emit('a', 1)`, `app.events.emitter.on('a', () => {})`, `app.history.push('/a')`, `export const x: string = app.formatjs.intl.formatMessage({ id: 'a' })`, `export const x: boolean = app.os.isMac()`],
				bad: [`eventsGizmoFn({ emitter: 1 })`, `historyGizmoFn({ history: 1 })`, `formatJSGizmoFn()`, `formatJSGizmoFn({})`, `formatJSGizmoFn({ config: 1 })`, `export const x: string = app.os.isMac()`, `app.history.nothing()`, `app.events.nothing`, `app.formatjs.intl.nothing()`],
				loc: 'plugins/events/src/events_gizmo.ts'
			},
			{
				name: 'the browser preset',
				prelude: `import { justApp } from '@just-web/app'\nimport { commandsGizmoFn } from '@just-web/commands'\nimport { presetsBrowserGizmoFn } from '@just-web/presets-browser'\nconst app = await justApp({ name: 'n' }).with(commandsGizmoFn()).with(presetsBrowserGizmoFn()).create()`,
				good: [`app.history.push('/a')`, `app.preferences.set('k', 'v')`, `export const x: Storage = app.browser.localStorage`, `app.fetch('u')`, `app.commands.handlers.invoke('a')`, `presetsBrowserGizmoFn({ browser: { preventDefault: true } })`],
				bad: [`app.preferences.set('k', 1)`, `app.browser.errors.set([])`, `app.fetch()`, `presetsBrowserGizmoFn({ browser: { preventDefault: 1 } })`, `presetsBrowserGizmoFn({ browser: { fetch: 1 } })`, `presetsBrowserGizmoFn({ history: 1 })`, `app.routes`, `app.i18n`],
				loc: 'presets/browser/src/presets_browser_gizmo.ts'
			}
		])
	]
}
