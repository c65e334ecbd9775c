From 64d906a5fc0ed8da4056f45c90ef0d3005ea8047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 01/18] fix: unsubscribing twice no longer removes another
 handler

---
 libraries/states/src/state.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 3a07c93..343214f 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -89,7 +89,8 @@ export function createState<T>(
 		log.on(logLevels.trace, log => log(`new onChange handler: ${tersify(handler)}`))
 		handlers.push(handler)
 		return () => {
-			handlers.splice(handlers.indexOf(handler), 1)
+			const index = handlers.indexOf(handler)
+			if (index >= 0) handlers.splice(index, 1)
 		}
 	}
 
-- 
2.43.0


From 0eec15a14a62298181459c22a0a4fe96d3e73958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 02/18] fix: notify every handler when one unsubscribes while
 being notified

---
 libraries/states/src/state.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 343214f..52a00d2 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -49,7 +49,7 @@ export function createState<T>(
 
 	function notifyAfterSet(old: T, value: T) {
 		log.planck('state changed:', old, value)
-		handlers.forEach(h => {
+		handlers.slice().forEach(h => {
 			h(value, old)
 		})
 		return value
-- 
2.43.0


From f54f120110cbfea380e6c50994d0d70cc0723707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 03/18] fix: keep undefined as the current value when an async
 updater resolves to nothing

---
 libraries/states/src/state.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 52a00d2..26104aa 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -73,7 +73,8 @@ export function createState<T>(
 			if (p) {
 				return p.then(v => {
 					if (v === nothing) {
-						return notifyAfterSet(old, undefined as any)
+						value = undefined as any
+						return notifyAfterSet(old, value)
 					}
 					value = Object.freeze(v ?? r)
 					return notifyAfterSet(old, value)
-- 
2.43.0


From fab41301490bcde037ab710ef409788ca608d02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 04/18] fix: accept null as the value resolved by an async
 updater

---
 libraries/states/src/state.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 26104aa..6107ac9 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -76,7 +76,7 @@ export function createState<T>(
 						value = undefined as any
 						return notifyAfterSet(old, value)
 					}
-					value = Object.freeze(v ?? r)
+					value = Object.freeze(v === undefined ? r : v)
 					return notifyAfterSet(old, value)
 				})
 			}
-- 
2.43.0


From e87a8b2792a63b531e0cb30f8be053befd5c12d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:05 +0000
Subject: [PATCH 05/18] fix: registry has() ignores members of Object.prototype

---
 libraries/states/src/registry.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libraries/states/src/registry.ts b/libraries/states/src/registry.ts
index 4257f89..b215d2d 100644
--- a/libraries/states/src/registry.ts
+++ b/libraries/states/src/registry.ts
@@ -33,7 +33,8 @@ export function createRegistry<K extends KeyTypes, T>(
 			return [...Object.keys(r), ...Object.getOwnPropertySymbols(r)] as Widen<K>[]
 		},
 		has(key) {
-			return store.get()[key] !== undefined
+			const r = store.get()
+			return Object.prototype.hasOwnProperty.call(r, key) && r[key] !== undefined
 		},
 		size() {
 			return this.keys().length
-- 
2.43.0


From 6daa7b86bd2497fecb70acdbb8cf78b24d0ebbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:15 +0000
Subject: [PATCH 06/18] fix: command ids spelled like Object.prototype members
 are not registered commands

---
 plugins/commands/src/handlers.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/plugins/commands/src/handlers.ts b/plugins/commands/src/handlers.ts
index a1a1352..7b99d20 100644
--- a/plugins/commands/src/handlers.ts
+++ b/plugins/commands/src/handlers.ts
@@ -19,8 +19,7 @@ export function handlerRegistry({ log }: LogGizmo, options?: handlerRegistry.Opt
 		 */
 		register(id: string, handler: AnyFunction) {
 			logger.trace('register', id)
-			const commands = registry.get()
-			if (commands[id]) {
+			if (registry.has(id)) {
 				logger.notice(`Registering a new handler for '${id}'. Please make sure this is expected.`)
 				logger.on(logLevels.debug, log => log(`overrideing handler: ${tersify(handler)}`))
 			}
@@ -30,7 +29,7 @@ export function handlerRegistry({ log }: LogGizmo, options?: handlerRegistry.Opt
 		},
 		invoke(id: string, ...args: any[]) {
 			logger.trace('invoke', id)
-			const handler = registry.get()[id]
+			const handler = registry.has(id) ? registry.get()[id] : undefined
 			return handler ? handler(...args) : logger.error(`Invoking not registered command: '${id}'`)
 		},
 		keys: registry.keys.bind(registry),
-- 
2.43.0


From 100eb9203b97decca8020efca4fc248110114342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:15 +0000
Subject: [PATCH 07/18] fix: generate the title from the whole id when it has
 no dot

---
 plugins/commands/src/formatCommand.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/commands/src/formatCommand.ts b/plugins/commands/src/formatCommand.ts
index 72db5a9..f0a8147 100644
--- a/plugins/commands/src/formatCommand.ts
+++ b/plugins/commands/src/formatCommand.ts
@@ -11,5 +11,5 @@ export function formatCommand(cmd: CommandContribution) {
 
 function generateTitle(command: string) {
 	const i = command.indexOf('.')
-	return sentenceCase(command.slice(i))
+	return sentenceCase(command.slice(i + 1))
 }
-- 
2.43.0


From c3c51b73e067d1f55c2a64d9db6d89decd9b4854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 08/18] fix: bind every cmd key of a key sequence

---
 plugins/browser-keyboard/src/keyBindings.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/browser-keyboard/src/keyBindings.ts b/plugins/browser-keyboard/src/keyBindings.ts
index a023dcd..5252dca 100644
--- a/plugins/browser-keyboard/src/keyBindings.ts
+++ b/plugins/browser-keyboard/src/keyBindings.ts
@@ -50,5 +50,5 @@ function getKey(ctx: OSGizmo, keyBinding: any): string {
 }
 
 function toMousetrapKey(key: string) {
-	return key.replace(/cmd\+/, 'command+')
+	return key.replace(/cmd\+/g, 'command+')
 }
-- 
2.43.0


From 9bbf864378e51042b88d1badbc9696c6bc3eb1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 09/18] fix: setting a browser preference completes when the
 value is written

---
 plugins/browser-preferences/src/browser_preferences_gizmo.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/browser-preferences/src/browser_preferences_gizmo.ts b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
index f89b76b..02566df 100644
--- a/plugins/browser-preferences/src/browser_preferences_gizmo.ts
+++ b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
@@ -29,11 +29,11 @@ export const browserPreferencesGizmo = define({
 			ctx.log.planck(`get: '${k}'`)
 			return getItem(k) ?? defaultValue
 		})
-		setUserPreference.connect(ctx, async (key, value) => {
+		setUserPreference.connect(ctx, (key, value) => {
 			const k = getKey(ctx.name, key)
 			const original = getItem(k)
 			const v = typeof value === 'function' ? produce(original, value as any) : value
-			MaybePromise.transform(v, v => {
+			return MaybePromise.transform(v, v => {
 				if (isNothing(v) || v === undefined) {
 					ctx.log.trace(`set: clear '${k}'`)
 					localStorage.removeItem(k)
-- 
2.43.0


From ef994815de6085e0d64f5b841c44191c7fb0790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 10/18] fix: save the value a preference store handler updates
 in-place

---
 plugins/preferences/src/preferences_gizmo.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/plugins/preferences/src/preferences_gizmo.ts b/plugins/preferences/src/preferences_gizmo.ts
index bfa31bb..a3bc5a7 100644
--- a/plugins/preferences/src/preferences_gizmo.ts
+++ b/plugins/preferences/src/preferences_gizmo.ts
@@ -49,9 +49,12 @@ export const preferencesGizmo = define({
 					function set(value: SetStateValue<T | undefined> | undefined) {
 						if (isType<Updater<T>>(value, value => typeof value === 'function')) {
 							return self.set(key, v => {
-								const orig: T = v !== undefined ? JSON.parse(v) : defaultValue
-								return MaybePromise.transform(value(orig as any), v => {
-									if (isNothing(v)) return v
+								const s = v ?? (defaultValue === undefined ? undefined : JSON.stringify(defaultValue))
+								const orig = s === undefined ? undefined : JSON.parse(s)
+								return MaybePromise.transform(value(orig), r => {
+									if (isNothing(r)) return r
+									// the handler returns nothing when it updates the value in-place
+									const v = r === undefined ? orig : r
 									if (v !== undefined) return JSON.stringify(v)
 								})
 							})
-- 
2.43.0


From 1b8a4469baef3577dcaba54502dfdfadcce65be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:07 +0000
Subject: [PATCH 11/18] fix: remove the preference when the handler returns
 undefined

---
 .../browser-preferences/src/browser_preferences_gizmo.ts   | 5 ++---
 plugins/preferences/src/memory_preferences_gizmo.ts        | 7 +++----
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/plugins/browser-preferences/src/browser_preferences_gizmo.ts b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
index 02566df..1ff0400 100644
--- a/plugins/browser-preferences/src/browser_preferences_gizmo.ts
+++ b/plugins/browser-preferences/src/browser_preferences_gizmo.ts
@@ -4,9 +4,8 @@ import type { CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { clearAllUserPreferences, getUserPreference, preferencesGizmo, setUserPreference } from '@just-web/preferences'
 import { isNothing } from '@just-web/states'
-import { produce } from 'immer'
 import { decode, encode } from 'js-base64'
-import { MaybePromise } from 'type-plus'
+import { type AnyFunction, MaybePromise } from 'type-plus'
 
 /**
  * Preferences Gizmo implementation for the browser.
@@ -32,7 +31,7 @@ export const browserPreferencesGizmo = define({
 		setUserPreference.connect(ctx, (key, value) => {
 			const k = getKey(ctx.name, key)
 			const original = getItem(k)
-			const v = typeof value === 'function' ? produce(original, value as any) : value
+			const v = typeof value === 'function' ? (value as AnyFunction)(original) : value
 			return MaybePromise.transform(v, v => {
 				if (isNothing(v) || v === undefined) {
 					ctx.log.trace(`set: clear '${k}'`)
diff --git a/plugins/preferences/src/memory_preferences_gizmo.ts b/plugins/preferences/src/memory_preferences_gizmo.ts
index facb62b..a74979a 100644
--- a/plugins/preferences/src/memory_preferences_gizmo.ts
+++ b/plugins/preferences/src/memory_preferences_gizmo.ts
@@ -2,8 +2,7 @@ import { define, incubate } from '@just-web/app'
 import type { CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { isNothing } from '@just-web/states'
-import { produce } from 'immer'
-import { MaybePromise, record } from 'type-plus'
+import { type AnyFunction, MaybePromise, record } from 'type-plus'
 import { clearAllUserPreferences, getUserPreference, setUserPreference } from './preferences.js'
 import { preferencesGizmo } from './preferences_gizmo.js'
 
@@ -33,9 +32,9 @@ export const memoryPreferencesGizmo = define({
 		let storage = record<string, any>()
 		getUserPreference.connect(ctx, (key, defaultValue) => storage[key] ?? defaultValue)
 		setUserPreference.connect(ctx, (key, value) => {
-			const v = typeof value === 'function' ? produce(storage[key], value as any) : value
+			const v = typeof value === 'function' ? (value as AnyFunction)(storage[key]) : value
 			return MaybePromise.transform(v, v => {
-				if (isNothing(v)) delete storage[key]
+				if (isNothing(v) || v === undefined) delete storage[key]
 				else storage[key] = v
 			})
 		})
-- 
2.43.0


From 02546cc672147dc995e84f77020f8639dbba7fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 12/18] fix: preferences of an app stay in that app when
 another app is created

---
 plugins/preferences/src/preferences_gizmo.ts | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/plugins/preferences/src/preferences_gizmo.ts b/plugins/preferences/src/preferences_gizmo.ts
index a3bc5a7..8b20a87 100644
--- a/plugins/preferences/src/preferences_gizmo.ts
+++ b/plugins/preferences/src/preferences_gizmo.ts
@@ -1,8 +1,8 @@
 import { define } from '@just-web/app'
-import type { CommandsGizmo } from '@just-web/commands'
+import type { Command, CommandsGizmo } from '@just-web/commands'
 import type { KeyboardGizmo } from '@just-web/keyboard'
 import { isNothing, type SetStateValue, type Updater } from '@just-web/states'
-import { type AnyFunction, extractFunction, isType, type JSONTypes, MaybePromise } from 'type-plus'
+import { type AnyFunction, type ExtractFunction, isType, type JSONTypes, MaybePromise } from 'type-plus'
 import { clearAllUserPreferences, getUserPreference, setUserPreference } from './preferences.js'
 
 export type { SetStateValue }
@@ -23,12 +23,12 @@ export type { SetStateValue }
  */
 export const preferencesGizmo = define({
 	static: define.require<CommandsGizmo>().optional<KeyboardGizmo>(),
-	async create() {
+	async create({ commands }) {
 		return {
 			preferences: {
-				get: extractFunction(getUserPreference),
-				set: extractFunction(setUserPreference),
-				clearAll: extractFunction(clearAllUserPreferences),
+				get: inApp(commands, getUserPreference),
+				set: inApp(commands, setUserPreference),
+				clearAll: inApp(commands, clearAllUserPreferences),
 				/**
 				 * Creates a [store](https://github.com/justland/just-web/tree/main/libraries/states#createstore) for a specific key.
 				 *
@@ -76,4 +76,12 @@ export const preferencesGizmo = define({
 	}
 })
 
+/**
+ * Invokes the command in this app.
+ * The command itself runs in the app it is last connected to.
+ */
+function inApp<C extends Command<AnyFunction>>(commands: CommandsGizmo['commands'], cmd: C) {
+	return ((...args: any[]) => commands.handlers.invoke(cmd.id, ...args)) as ExtractFunction<C>
+}
+
 export type PreferencesGizmo = define.Infer<typeof preferencesGizmo>
-- 
2.43.0


From fad9252c0d77ab7d3630839d6ae6a478f4c37392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 13/18] fix: contribute the set language command

---
 plugins/i18n/src/i18n_gizmo.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/plugins/i18n/src/i18n_gizmo.ts b/plugins/i18n/src/i18n_gizmo.ts
index 08add07..9d74541 100644
--- a/plugins/i18n/src/i18n_gizmo.ts
+++ b/plugins/i18n/src/i18n_gizmo.ts
@@ -34,8 +34,7 @@ export const i18nGizmoFn = define((options: I18nGizmoOptions) => ({
 			}
 		}
 		if (commands) {
-			setLanguageCommand.connect({ commands, keyboard })
-			commands.handlers.register(setLanguageCommand.id, gizmo.i18n.setLanguage)
+			setLanguageCommand.connect({ commands, keyboard }, gizmo.i18n.setLanguage)
 		}
 
 		return gizmo
-- 
2.43.0


From ee3fff2254f42b4ca80a8d6d5704daa74117d88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 14/18] fix: unregistering a route keeps the handler registered
 since

---
 plugins/routes/src/routes_gizmo.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/routes/src/routes_gizmo.ts b/plugins/routes/src/routes_gizmo.ts
index 4729900..4f6397b 100644
--- a/plugins/routes/src/routes_gizmo.ts
+++ b/plugins/routes/src/routes_gizmo.ts
@@ -42,7 +42,7 @@ export const routesGizmo = define({
 
 				return () => {
 					store.set(s => {
-						delete s.routes[route]
+						if (s.routes[route] === handler) delete s.routes[route]
 					})
 				}
 			},
-- 
2.43.0


From 9a0e2415cfa10b8ff46270330c368a6fd84b68ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:40 +0000
Subject: [PATCH 15/18] fix: the handle of a cancelled subscription does not
 end a later one

---
 libraries/states/src/state.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 6107ac9..6af3b7d 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -89,9 +89,11 @@ export function createState<T>(
 		if (handlers.includes(handler)) return () => {}
 		log.on(logLevels.trace, log => log(`new onChange handler: ${tersify(handler)}`))
 		handlers.push(handler)
+		let subscribed = true
 		return () => {
-			const index = handlers.indexOf(handler)
-			if (index >= 0) handlers.splice(index, 1)
+			if (!subscribed) return
+			subscribed = false
+			handlers.splice(handlers.indexOf(handler), 1)
 		}
 	}
 
-- 
2.43.0


From b3925187ce5436f45d06a3b8f65818ea91ddf622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:40 +0000
Subject: [PATCH 16/18] fix: unregistering a route again does not remove a
 later registration of the same handler

---
 plugins/routes/src/routes_gizmo.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plugins/routes/src/routes_gizmo.ts b/plugins/routes/src/routes_gizmo.ts
index 4f6397b..8af4a06 100644
--- a/plugins/routes/src/routes_gizmo.ts
+++ b/plugins/routes/src/routes_gizmo.ts
@@ -36,13 +36,15 @@ export const routesGizmo = define({
 					return () => {}
 				}
 
+				// distinct per registration, also when the same handler is registered again
+				const entry: Route = () => handler()
 				store.set(s => {
-					s.routes[route] = handler
+					s.routes[route] = entry
 				})
 
 				return () => {
 					store.set(s => {
-						if (s.routes[route] === handler) delete s.routes[route]
+						if (s.routes[route] === entry) delete s.routes[route]
 					})
 				}
 			},
-- 
2.43.0


From 2b92226004e9d954d0613302698850a5d5344ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 17/18] fix: hand the value actually replaced to the handlers
 of an async update

---
 libraries/states/src/state.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libraries/states/src/state.ts b/libraries/states/src/state.ts
index 6af3b7d..3f18ab8 100644
--- a/libraries/states/src/state.ts
+++ b/libraries/states/src/state.ts
@@ -72,12 +72,14 @@ export function createState<T>(
 			})
 			if (p) {
 				return p.then(v => {
+					// the value may have changed while waiting
+					const prev = value
 					if (v === nothing) {
 						value = undefined as any
-						return notifyAfterSet(old, value)
+						return notifyAfterSet(prev, value)
 					}
 					value = Object.freeze(v === undefined ? r : v)
-					return notifyAfterSet(old, value)
+					return notifyAfterSet(prev, value)
 				})
 			}
 			value = Object.freeze(r)
-- 
2.43.0


From 9aec29fd472288031d723c58e62be2cf7abda1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:33 +0000
Subject: [PATCH 18/18] fix: register handlers for any command id, __proto__
 included

---
 plugins/commands/src/handlers.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plugins/commands/src/handlers.ts b/plugins/commands/src/handlers.ts
index 7b99d20..be3e73c 100644
--- a/plugins/commands/src/handlers.ts
+++ b/plugins/commands/src/handlers.ts
@@ -1,7 +1,7 @@
 import { type LogGizmo, logLevels } from '@just-web/app'
 import { createRegistry } from '@just-web/states'
 import { tersify } from 'tersify'
-import type { AnyFunction } from 'type-plus'
+import { type AnyFunction, record } from 'type-plus'
 import type { HandlerRegistry } from './types.js'
 
 export namespace handlerRegistry {
@@ -11,7 +11,9 @@ export namespace handlerRegistry {
 export function handlerRegistry({ log }: LogGizmo, options?: handlerRegistry.Options): HandlerRegistry {
 	const logger = log.getLogger('@just-web/commands')
 
-	const registry = createRegistry<string, (...args: any[]) => void>(options)
+	const registry = createRegistry<string, (...args: any[]) => void>(
+		Object.assign(record<string, AnyFunction>(), options)
+	)
 
 	return {
 		/**
-- 
2.43.0

