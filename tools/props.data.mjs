// id, title, statement, over, forall, why, files, mech: [[name, where]...]
const ST = 'libraries/states/src/'
const CM = 'plugins/commands/src/'
const KB = 'plugins/keyboard/src/'
const BK = 'plugins/browser-keyboard/src/'
const PR = 'plugins/preferences/src/'
const BP = 'plugins/browser-preferences/src/'

const I1 = 'plugins/i18n/src/'
const BI = 'plugins/browser-i18n/src/'
const RT = 'plugins/routes/src/'
const BR = 'plugins/browser/src/'
const FE = 'plugins/fetch/src/'
const AP = 'frameworks/app/src/'
const ID = 'frameworks/id/src/'
const LG = 'frameworks/log/src/'
const EV = 'plugins/events/src/'
const HI = 'plugins/history/src/'
const OS = 'plugins/os/src/'
const PB = 'presets/browser/src/'
const TECH_TYPES = 'static analysis: compile-fail witnesses (type-level obligations over the public entries, each with a compiling twin) discharged by the type checker'
const NOTE_TYPES = 'Each witness is a program over the public entries of the current sources, type-checked under strict settings and never run; decides the listed misuses, not all. Trusted: the TypeScript checker and the declarations of third-party modules.'

export const PROPS = [
	// ---------------------------------------------------------------- states
	{
		id: 'S01',
		title: 'Every effective change of a state container reaches every subscriber once',
		statement: 'Whenever the value of a state, store or registry changes, every handler subscribed at that moment is called exactly once, in subscription order, with the new and the previous value, and the new value is already what the container reports when the handlers run. A handler that unsubscribes itself while being notified does not keep the others from being notified, and changing one container notifies no subscriber of another. This holds for plain values (functions included), synchronous and asynchronous updaters, and for containers created directly or through an app.',
		over: ['histories', 'inputs'],
		forall: 'every number of subscribers, every subscription made before or between updates, every initial and next value, every way of giving the next value, direct and app-created containers',
		why: 'the tests subscribe one or two handlers and sample a few literals; the guarantee is about any number of subscribers, any history of (un)subscriptions and any value',
		files: [`${ST}state.ts`, `${ST}store.ts`, `${ST}registry.ts`, `${ST}states_gizmo.ts`],
		mech: [['createState: notify()', `${ST}state.ts`], ['createStore / createRegistry over createState', `${ST}store.ts`]]
	},
	{
		id: 'S02',
		title: 'Setting the current value again is silent',
		statement: 'Setting a state or store to the value it already has, as told by Object.is, notifies no subscriber and leaves the value in place; setting it to any other value notifies. NaN equals itself, and 0 and -0 differ.',
		over: ['inputs', 'histories'],
		forall: 'every current value, however it came to be there (initial, set directly, made by an updater), and every value set',
		why: 'equality over all values cannot be sampled; the tests try one primitive',
		files: [`${ST}state.ts`],
		mech: [['Object.is test before notifying', `${ST}state.ts`]]
	},
	{
		id: 'S03',
		title: 'Unsubscribing removes exactly that subscription, once',
		statement: 'Calling the function returned by a subscription stops that handler, and only that one, from being notified from then on; calling it again changes nothing, whatever was subscribed or unsubscribed in between, the same handler included. A handler can be subscribed again afterwards, and the container keeps working when all its subscribers are gone.',
		over: ['histories'],
		forall: 'every history of subscriptions and (repeated) unsubscriptions over any number of other subscribers',
		why: 'tests unsubscribe once, last; the defect found here needed a second call after another subscription moved',
		files: [`${ST}state.ts`],
		mech: [['onChange()', `${ST}state.ts`]]
	},
	{
		id: 'S04',
		title: 'A failing updater leaves the state as it was',
		statement: 'When an updater function throws, or the promise it returns rejects, the container keeps its value, no subscriber is notified, and the caller of the update receives that very error (thrown, or as the rejection of the returned promise). The container works normally afterwards.',
		over: ['fault_sequences', 'inputs'],
		forall: 'every thrown or rejected value, before or after the updater edited its draft, for states, stores and registries',
		why: 'no test makes an updater fail after editing',
		files: [`${ST}state.ts`, `${ST}registry.ts`, `${ST}adder.ts`],
		mech: [['setState() commits after the updater returned', `${ST}state.ts`]]
	},
	{
		id: 'S05',
		title: 'Published values cannot be changed behind the container',
		statement: 'An updater that edits the value it is given edits a draft: the value already published, and held by readers and subscribers, is not changed by it. Objects published as the result of such an edit are frozen.',
		over: ['inputs', 'histories'],
		forall: 'every object value and every in-place edit of it, in a synchronous or asynchronous updater',
		why: 'aliasing between the published value and what the updater edits shows only when someone kept the old value',
		files: [`${ST}state.ts`, `${ST}registry.ts`],
		mech: [['produce() of immer', `${ST}state.ts`]]
	},
	{
		id: 'S06',
		title: 'The result of an updater decides the next value',
		statement: 'An updater runs exactly once with the current value, and its result becomes the next value whatever it is (null, false, 0 and the empty string included); returning the `nothing` marker sets undefined, and returning undefined accepts the in-place edits of the object it was given. An updater that returns a promise behaves in the same way with the value the promise resolves to.',
		over: ['inputs', 'schedules'],
		forall: 'every result value, synchronous or asynchronous, with and without in-place edits, for states and stores',
		why: 'tests use one truthy result per form; the falsy and marker results of asynchronous updaters were broken unnoticed',
		files: [`${ST}state.ts`, `${ST}is_nothing.ts`],
		mech: [['setState()', `${ST}state.ts`]]
	},
	{
		id: 'S07',
		title: 'Resetting restores the initial value',
		statement: 'After any updates, resetting a state, store or registry makes its value the one it was created with, and notifies the subscribers exactly when that changes the value.',
		over: ['histories', 'inputs'],
		forall: 'every initial value and every history of updates, in-place edits included',
		why: 'an in-place edit that leaks into the initial value, or a reset that skips notification, needs specific histories',
		files: [`${ST}state.ts`, `${ST}store.ts`, `${ST}registry.ts`],
		mech: [['reset closures', `${ST}store.ts`]]
	},
	{
		id: 'S08',
		title: 'The views of a registry agree with each other',
		statement: 'At every point the keys, size, values and lookup of a registry describe the same set of own entries: exactly those given initially or set since and not removed, symbol keys included. The presence test tells exactly the entries holding a value other than undefined; a key never set is absent also when it is spelled like a member every object has.',
		over: ['histories', 'inputs'],
		forall: 'every initial record of any size and every history of entries set or removed, for any string or symbol key',
		why: 'tests look up the few keys they set',
		files: [`${ST}registry.ts`],
		mech: [['createRegistry()', `${ST}registry.ts`]]
	},
	{
		id: 'S09',
		title: 'Read-only views expose no way to change, and follow the source',
		statement: 'A read-only view of a store or registry offers its reading operations only, and nothing that changes the source; reads and subscriptions made through it follow the source, also for changes made after the view was created.',
		over: ['histories', 'inputs'],
		forall: 'every value and update of the source',
		why: 'absence of capability cannot be sampled',
		files: [`${ST}store.ts`, `${ST}registry.ts`],
		mech: [['toReadonlyStore / toReadonlyRegistry', `${ST}store.ts`]]
	},
	{
		id: 'S10',
		title: 'Adding entries to a collection keeps all of them, as one update',
		statement: 'Adding one or several entries to a store or registry applies the given adder to each entry in the given order, keeps the entries already there, and amounts to a single update with a single notification. Appending puts the entries after the existing ones in order; prepending puts each before what was there.',
		over: ['inputs', 'histories'],
		forall: 'every existing collection, every list of entries, any adder',
		why: 'tests add one or two literals to an empty list',
		files: [`${ST}adder.ts`],
		mech: [['adder() / withAdder() / push() / unshift()', `${ST}adder.ts`]]
	},
	{
		id: 'S11',
		title: 'Containers made through an app report to that app only',
		statement: 'The state, store and registry created through an app behave as the ones created directly, and whatever they log goes to the log of that app, or to the logger given for that container, and to no other log.',
		over: ['configurations', 'histories'],
		forall: 'every combination of apps created in the same process and containers created through them',
		why: 'tests use one app at a time',
		files: [`${ST}states_gizmo.ts`, `${ST}log.ts`],
		mech: [['statesGizmo', `${ST}states_gizmo.ts`]]
	},
	// ---------------------------------------------------------------- commands
	{
		id: 'C01',
		title: 'Invoking a command runs the handler registered last, with its arguments',
		statement: 'Invoking a command id runs exactly the handler registered last for it in that app, once, with the arguments given, and gives back its result or its error; the listed and tested ids are exactly those registered. Invoking an id that has no handler (also one spelled like a member every object has) runs nothing, throws nothing and reports an error in the app\'s log. Replacing a handler is announced in the log, and apps do not share handlers.',
		over: ['histories', 'inputs', 'configurations'],
		forall: 'every id, handler, argument list and history of registrations, in several apps at once',
		why: 'ids and arguments are arbitrary; tests use a handful of literal ids',
		files: [`${CM}handlers.ts`, `${CM}commands_gizmo.ts`],
		mech: [['invoke / register', `${CM}handlers.ts`]]
	},
	{
		id: 'C02',
		title: 'A connected command runs the handler in force in its app',
		statement: 'Calling a command that is connected to an app runs, once and with the given arguments and result, the handler registered last: the one given on connecting, else one defined for the command, else its default; later registrations for its id take its place. When it is connected to several apps, a call acts in the one it was connected to last. A command without any handler reports an error in the app\'s log when called, and different commands never run each other\'s handlers.',
		over: ['histories', 'inputs', 'programs'],
		forall: 'every combination of default, defined and connected handler, every later registration, any arguments, any number of commands',
		why: 'the combinations of where a handler comes from and the order of definition are too many to sample by hand',
		files: [`${CM}command.ts`, `${CM}handlers.ts`, `${CM}commands.ts`],
		mech: [['command()', `${CM}command.ts`]]
	},
	{
		id: 'C03',
		title: 'Connecting a command publishes its contribution and key binding',
		statement: 'Connecting a command to an app adds its command contribution, holding its descriptive properties and no handler, to the command list of that app; when the command names a key (or a mac key) and the app has keyboard support, its key binding is added to the key bindings of that app as well, and otherwise none is. Other apps are not affected.',
		over: ['programs', 'configurations'],
		forall: 'every combination of command properties, with and without keyboard support, over several apps',
		why: 'tests connect one fully specified command to one app',
		files: [`${CM}command.ts`, `${CM}contributions.ts`, `${KB}keyBindings.ts`],
		mech: [['connect()', `${CM}command.ts`]]
	},
	{
		id: 'C04',
		title: 'The first contribution of an id wins, duplicates are reported',
		statement: 'Adding command or key-binding contributions keeps, for every id, the contribution added first; a later contribution with an id already present changes nothing and is reported once, as a warning or worse, in the log of that app. Contributions with new ids are all kept, and nothing else is logged.',
		over: ['histories', 'inputs'],
		forall: 'every existing collection and every list of added contributions, duplicates within one call included',
		why: 'tests add one duplicate to a one-element list',
		files: [`${CM}contributions.ts`, `${KB}keyBindings.ts`],
		mech: [['add() adders', `${CM}contributions.ts`]]
	},
	{
		id: 'C05',
		title: 'A command always gets a readable title',
		statement: 'Formatting a command keeps its id and description and gives it its own title when it has one; otherwise the title is the part of the id after its first dot in sentence case, or the whole id in sentence case when it has no dot.',
		over: ['inputs'],
		forall: 'every command, with any id and any other properties',
		why: 'ids are arbitrary strings; tests format two',
		files: [`${CM}formatCommand.ts`],
		mech: [['formatCommand()', `${CM}formatCommand.ts`]]
	},
	// ---------------------------------------------------------------- keyboard
	{
		id: 'K01',
		title: 'The key bound is the one meant for the platform',
		statement: 'On a mac the mac key of a binding is used when it has one; otherwise, and on any other platform, its general key is used. Every cmd in a key combination or sequence is bound as the command key, and the rest of it is bound as written. Whether the platform is a mac follows from the detected operating system family only.',
		over: ['inputs', 'configurations'],
		forall: 'every key string, every combination of key and mac key, every platform',
		why: 'key strings are arbitrary, and the suite runs on one platform',
		files: [`${KB}keyBindings.ts`, `${BK}keyBindings.ts`, 'plugins/os/src/os.ts'],
		mech: [['formatKeyBinding', `${KB}keyBindings.ts`], ['getKey / toMousetrapKey', `${BK}keyBindings.ts`]]
	},
	{
		id: 'K02',
		title: 'Key bindings contributed before the app starts work once it is created',
		statement: 'When an app with browser keyboard support is created, every key binding contributed by then is in force: pressing its keys runs the command of that id once, in that app, and keeps the browser from handling the keys. When two bindings use the same keys the first stays and each further one is ignored with one warning in the log.',
		over: ['configurations', 'histories'],
		forall: 'every number of contributed bindings with any ids and keys, duplicates included',
		why: 'tests contribute one binding and press one key',
		files: [`${BK}keyBindings.ts`, `${BK}browser_keyboard_gizmo.ts`],
		mech: [['startKeyBindings()', `${BK}keyBindings.ts`]]
	},
	{
		id: 'K03',
		title: 'Key bindings follow later contributions and removals',
		statement: 'A key binding contributed after the app was created is in force from then on, and one that is removed from the contributions stops being in force and frees its keys for another binding; bindings that are neither added nor removed keep working throughout.',
		over: ['histories'],
		forall: 'every history of adding and removing bindings over any number of others',
		why: 'tests add or remove one binding; the set difference must be right for any collection',
		files: [`${BK}keyBindings.ts`],
		mech: [['startKeyBindings(): subscription to the key bindings', `${BK}keyBindings.ts`]]
	},
	// ---------------------------------------------------------------- preferences
	{
		id: 'P01',
		title: 'Reading a preference gives the value set last',
		statement: 'Reading a user preference gives the value last set for that key in that app, or the default given with the read (else undefined) when there is none; reading stores nothing. Every key can be used, and with the browser backend an app created later under the same name over the same storage reads the same values.',
		over: ['histories', 'inputs'],
		forall: 'every history of sets, removals and clears over any keys and values, memory and browser backend, by the API, the commands or their invocation by id',
		why: 'the tests set one literal per backend',
		files: [`${PR}preferences.ts`, `${PR}memory_preferences_gizmo.ts`, `${BP}browser_preferences_gizmo.ts`],
		mech: [['memoryPreferencesGizmo / browserPreferencesGizmo', `${PR}memory_preferences_gizmo.ts`]]
	},
	{
		id: 'P02',
		title: 'Setting a preference has the same outcome in every backend',
		statement: 'Setting a preference to a value, the empty string included, stores it; setting it to undefined, or to a handler that gives undefined or the `nothing` marker, removes it. A handler, synchronous or asynchronous, is run once with the value in force, decides the value when it completes, and when it fails nothing is changed and the caller receives its error. The memory and the browser backend agree on all of this.',
		over: ['inputs', 'fault_sequences', 'configurations'],
		forall: 'every outcome of every form of set, with and without a value in force, on both backends',
		why: 'the two implementations are tested separately on different samples, and differed',
		files: [`${PR}memory_preferences_gizmo.ts`, `${BP}browser_preferences_gizmo.ts`],
		mech: [['set()', `${BP}browser_preferences_gizmo.ts`]]
	},
	{
		id: 'P03',
		title: 'Preferences of apps sharing a browser storage stay apart',
		statement: 'Apps of different names over the same browser storage neither read nor change each other\'s preferences, nor entries of the storage that are not preferences. Clearing all preferences removes every preference of that app, however many there are, and nothing else.',
		over: ['configurations', 'histories'],
		forall: 'every pair of app names (letters, digits and dashes), any keys, any other content of the storage of any size',
		why: 'requires two apps and foreign entries in one storage; prefix relations between names and index shifting while removing depend on specific contents',
		files: [`${BP}browser_preferences_gizmo.ts`],
		mech: [['getKey() / clearAll()', `${BP}browser_preferences_gizmo.ts`]]
	},
	{
		id: 'P05',
		title: 'A typed preference store keeps structured values',
		statement: 'A preference store gives the value stored last, or its default while there is none, and saves what is set directly or what an updater returns or edits in place. The default is never changed by an edit, and the operations work when taken off the store.',
		over: ['inputs', 'histories'],
		forall: 'every JSON value and default, every history of gets, sets, in-place edits and clears, on both backends',
		why: 'in-place edits and defaults that are mutated need specific sequences',
		files: [`${PR}preferences_gizmo.ts`, `${PR}preferences.ts`],
		mech: [['preferences.createStore()', `${PR}preferences_gizmo.ts`]]
	},
	{
		id: 'P06',
		title: 'Setting a browser preference completes when it is written',
		statement: 'The promise of an asynchronous preference update completes only after the value is in the browser storage, and rejects when the updater or the write fails; a synchronous update whose write fails throws the error of the storage. The value in force is then the one before, and later updates work.',
		over: ['schedules', 'fault_sequences'],
		forall: 'every value, every storage that refuses a write, synchronous and asynchronous updaters',
		why: 'no test makes the storage fail or observes the storage at the moment the promise completes',
		files: [`${BP}browser_preferences_gizmo.ts`],
		mech: [['set()', `${BP}browser_preferences_gizmo.ts`]]
	},
	{
		id: 'P07',
		title: 'Preferences of apps in one process stay in their app',
		statement: 'When several apps with preferences live in one process, reading, setting and clearing preferences through one of them, by its API, by its command handlers or by a preference store made for it, acts on the preferences of that app only, whichever app was created last.',
		over: ['configurations', 'histories'],
		forall: 'every pair of memory and browser backends, any keys and values',
		why: 'every test creates one app',
		files: [`${PR}preferences.ts`, `${PR}preferences_gizmo.ts`, `${BP}browser_preferences_gizmo.ts`],
		mech: [['preference commands connected per app', `${PR}preferences_gizmo.ts`]]
	},
	// ---------------------------------------------------------------- languages
	{
		id: 'I01',
		title: 'The language follows the last one set and every handler learns of it',
		statement: 'getLanguage() gives the language set last, the initial one before that. Each change calls every handler added before it once, in order, with the new and the previous language, and a handler asking for the language gets the new one. Apps do not share their language or their handlers.',
		over: ['histories', 'configurations'],
		forall: 'every history of handlers added and languages set, any languages, with and without the browser part, any pair of apps',
		why: 'the tests set one language with one handler in one app',
		files: [`${I1}i18n_gizmo.ts`, `${BI}browser_i18n_gizmo.ts`],
		mech: [['language and handlers of the gizmo', `${I1}i18n_gizmo.ts`]]
	},
	{
		id: 'I02',
		title: 'The language of a browser app outlives it until it is cleared',
		statement: 'An app created under the same name over the same storage starts with the language set last, and with the language of the browser when it was cleared since or never set; an app of another name is not affected. Clearing makes the language that of the browser again and tells the handlers; nothing is stored before a language is set and no other entry of the storage is touched.',
		over: ['histories', 'configurations'],
		forall: 'every history of setting and clearing, every name, language and other entry of the storage',
		why: 'tests store and clear once under one name with an empty storage',
		files: [`${BI}browser_i18n_gizmo.ts`, `${BI}browser_i18n_gizmo.ctx.ts`],
		mech: [['storage key and fallback', `${BI}browser_i18n_gizmo.ts`]]
	},
	{
		id: 'I03',
		title: 'The set language command sets the language of its app',
		statement: 'In an app with commands and languages the set language command is contributed with a title, and invoking it sets the language, tells the handlers and, in a browser app, keeps the language for the next app of that name.',
		over: ['inputs', 'configurations'],
		forall: 'every language, with and without the browser part, called directly or invoked by its id',
		why: 'the tests call the command once and never look at the contribution or the storage',
		files: [`${I1}commands.ts`, `${I1}i18n_gizmo.ts`, `${BI}browser_i18n_gizmo.ts`],
		mech: [['setLanguageCommand', `${I1}commands.ts`]]
	},
	// ---------------------------------------------------------------- routes
	{
		id: 'R01',
		title: 'Navigating runs the handler of the route and nothing else',
		statement: 'Navigating to a registered route runs the handler it is registered with, once, and no other; navigating to a route that is not registered runs nothing and reports an error in the log of the app. This holds for every spelling of a route, those of object members included, and apps do not share their routes.',
		over: ['inputs', 'histories'],
		forall: 'every route text, every history of registering, unregistering and clearing, any pair of apps',
		why: 'route texts that collide with object members and routes registered again after a removal are not sampled',
		files: [`${RT}routes_gizmo.ts`],
		mech: [['navigate()', `${RT}routes_gizmo.ts`]]
	},
	{
		id: 'R02',
		title: 'A route belongs to the handler registered first until that is removed',
		statement: 'Registering a route that is taken changes nothing and reports an error; unregistering removes exactly the registration it was returned for, and does nothing when that was refused or is gone already. After clearing, no route is registered and each can be registered again; hasRoute() always tells whether a route is registered.',
		over: ['histories'],
		forall: 'every history of registering, (repeated) unregistering and clearing of several routes',
		why: 'stale unregister functions need register, remove and register in a specific order',
		files: [`${RT}routes_gizmo.ts`],
		mech: [['register() and clearRoutes()', `${RT}routes_gizmo.ts`]]
	},
	{
		id: 'R03',
		title: 'Navigating without a route goes to the configured initial route',
		statement: "Navigating without naming a route goes to the initial route configured last, to '/' when none is. Configuring it keeps the registered routes and does not affect another app.",
		over: ['histories', 'configurations'],
		forall: 'every sequence of configurations, registered or not, any pair of apps',
		why: 'one test configures once in one app',
		files: [`${RT}routes_gizmo.ts`],
		mech: [['config()', `${RT}routes_gizmo.ts`]]
	},
	// ---------------------------------------------------------------- browser
	{
		id: 'B01',
		title: 'Every uncaught error is kept, announced and logged',
		statement: 'From its creation on an app with a browser part adds every uncaught error to its errors, with message, source, position and cause, tells every handler once and logs it as an error. The errors can be read and watched but not changed, and the default handling is prevented exactly when asked for.',
		over: ['histories', 'inputs'],
		forall: 'every sequence of uncaught errors with any content, with and without a cause',
		why: 'tests dispatch one error of one shape',
		files: [`${BR}browser_gizmo.ts`, `${BR}errors.ts`, `${BR}error_store.ts`],
		mech: [['error listener', `${BR}errors.ts`]]
	},
	{
		id: 'B02',
		title: 'An app uses the browser facilities it is given, else the real ones',
		statement: 'fetch of an app is the one given to its browser part, else the one the app has so far, else that of the browser called with the same arguments and giving its result. The storages, navigator and location are the ones given (to the test part), else those of the browser, and the fetch part calls the fetch of the platform.',
		over: ['configurations', 'inputs'],
		forall: 'every combination of what is given and what the app has so far, the product and the test gizmo',
		why: 'precedence over all combinations is not sampled; jsdom has a single global for each',
		files: [`${BR}browser_gizmo.ts`, `${BR}browser_gizmo.ctx.ts`, `${BR}browser_gizmo.testing.ts`, `${FE}fetch_gizmo.ts`, `${FE}fetch.ts`],
		mech: [['browserGizmoFn create()', `${BR}browser_gizmo.ts`], ['fetchGizmo', `${FE}fetch_gizmo.ts`]]
	},
	{
		id: 'B03',
		title: 'Cleaning up an app removes exactly the listeners it added',
		statement: 'An app with a browser part keeps listening to uncaught errors as long as it lives; cleaning it up removes every listener it added to the window, for the same event, and adds none.',
		over: ['histories'],
		forall: 'every option, creation followed by cleanup',
		why: 'a listener left behind, or a different function removed, has no effect a unit test sees',
		files: [`${BR}browser_gizmo.ts`, `${BR}errors.ts`],
		mech: [['cleanup of the error listener', `${BR}errors.ts`]]
	},
	// ---------------------------------------------------------------- apps and logs
	{
		id: 'A01',
		title: 'Creating an app runs every gizmo once, in order, then the start handler',
		statement: 'Creating an app runs each gizmo once in the order given, each seeing the identity, the log and what the earlier ones made, then the start handler once with the complete app, and logs the creation once with the id of the app. The app has what the gizmos made, a later part in place of an earlier of the same name; when a gizmo or the start handler fails, the creation is rejected with that error.',
		over: ['configurations', 'fault_sequences'],
		forall: 'every chain of up to three gizmos with any parts, product and test apps, failure of any gizmo (also asynchronous) or of the start handler',
		why: 'failures and replaced parts in the middle of a chain are not sampled',
		files: [`${AP}just_app.ts`, `${AP}just_app.testing.ts`, `${AP}just_app.logic.ts`],
		mech: [['justApp()', `${AP}just_app.ts`], ['justTestApp()', `${AP}just_app.testing.ts`]]
	},
	{
		id: 'A02',
		title: 'An app has the name given and an id drawn for it',
		statement: 'An app has the name it is given, and an id drawn at random (at least 64 bits) when it is created, so that two apps never share one by construction, those of one incubator included. The id gizmo gives the same identity outside an app.',
		over: ['inputs', 'histories'],
		forall: 'every name, every order of creations, product and test apps',
		why: 'equality of two random ids cannot be established by sampling; an id drawn once per process passes the tests',
		files: [`${ID}id_gizmo.ts`, `${ID}id_gizmo.logic.ts`, `${ID}id_gizmo.testing.ts`, `${AP}just_app.ts`],
		mech: [['idGizmoFn', `${ID}id_gizmo.ts`]]
	},
	{
		id: 'A03',
		title: 'Loggers of an app are named within the app',
		statement: "A logger asked of an app's log for an id is named '<app name>:<id>', without an id '<app name>', and through a prefixed function '<app name>:<prefix>:<id>'; it takes the options given and logs to the log of the app. Non-console loggers do not reach the console, the others do.",
		over: ['inputs'],
		forall: 'every app name, prefix and id, every way of asking for a logger, product and test apps',
		why: 'names over all texts and the log they go to are sampled with a few literals',
		files: [`${LG}log_gizmo.ts`, `${LG}log_gizmo.logic.ts`, `${LG}log_gizmo.testing.ts`, `${LG}logger.ts`],
		mech: [['getLogger()', `${LG}log_gizmo.ts`]]
	},
	{
		id: 'A04',
		title: 'The log methods of an app log once, under its name, at their level',
		statement: "Each log method of an app, custom levels included, logs what it is given once, at its level and under the name of the app, whether called on the log or taken off it; on() and count() act on the app's log too. Each app has a log of its own, made with the options given.",
		over: ['inputs', 'configurations'],
		forall: 'every level, standard or custom, any messages, product and test apps, any pair of apps',
		why: 'the tests call a few methods on one app',
		files: [`${LG}log_gizmo.ts`, `${LG}log_gizmo.logic.ts`, `${LG}log_gizmo.testing.ts`, `${LG}standard_log.ts`],
		mech: [['logGizmoFn', `${LG}log_gizmo.ts`]]
	},
	{
		id: 'E01',
		title: 'An error thrown by an event listener is logged, not thrown to the emitter',
		statement: 'Emitting on the event emitter of an app calls the emitter it was given once, on itself with the same arguments; an error it throws is reported in the log of the app and does not reach the emitting code. Apps without an emitter given each have one of their own.',
		over: ['inputs', 'fault_sequences'],
		forall: 'every emitter, event and argument, every error thrown',
		why: 'one test throws one error through one emitter',
		files: [`${EV}events_gizmo.ts`],
		mech: [['trapping emit', `${EV}events_gizmo.ts`]]
	},
	{
		id: 'O01',
		title: 'A history, intl configuration or os given to an app is what it uses',
		statement: 'The history given to the history part is the history of the app, otherwise exactly one browser history is made for it; the intl of the formatjs part is made once from the configuration and cache given; the isMac function given to the test os part answers, otherwise the platform does.',
		over: ['configurations', 'inputs'],
		forall: 'every history, configuration, cache and answer',
		why: 'object identity for every supplied object cannot be sampled',
		files: [`${HI}history_gizmo.ts`, 'plugins/formatjs/src/formatjs_gizmo.ts', 'plugins/formatjs/src/formatjs_intl.ts', `${OS}os_gizmo.ts`, `${OS}os.ts`],
		mech: [['historyGizmoFn', `${HI}history_gizmo.ts`], ['formatJSGizmoFn', 'plugins/formatjs/src/formatjs_gizmo.ts']]
	},
	// ---------------------------------------------------------------- the system
	{
		id: 'Y01',
		title: 'The browser preset hands every option on and leaves its app as it was',
		statement: 'The presets for browser apps give each option to the part it is for, use the real browser facilities for what is not given (a history in memory in tests) and keep preferences in the storage of their browser part. They contribute their own parts only: name, id, log, commands and keyboard of the app stay the same objects.',
		over: ['configurations', 'inputs'],
		forall: 'every combination of options, with and without a keyboard, the product and the test preset',
		why: 'option plumbing over all combinations is not sampled',
		files: [`${PB}presets_browser_gizmo.ts`, `${PB}presets_browser_gizmo.mocks.ts`],
		mech: [['presetsBrowserGizmoFn', `${PB}presets_browser_gizmo.ts`]]
	},
	{
		id: 'X01',
		title: 'An app lacking a part a gizmo requires does not compile',
		statement: 'A program that adds a gizmo to an app lacking a part it requires, or creates it by hand from a context lacking one, is rejected by the type checker; the same program with all required parts is accepted. An app has the parts of its gizmos and its own, and reading any other part is rejected.',
		over: ['configurations'],
		forall: 'every gizmo of the repository and every single part it requires, lacking alone or with all others',
		why: 'the tests run transpiled code that is not type-checked',
		files: [`${AP}just_app.types.ts`, `${BK}browser_keyboard_gizmo.ts`, `${PR}preferences_gizmo.ts`, `${BP}browser_preferences_gizmo.ts`, `${BI}browser_i18n_gizmo.ts`, `${PB}presets_browser_gizmo.ts`],
		mech: [['define.require<...>()', `${BK}browser_keyboard_gizmo.ts`]],
		technique: TECH_TYPES,
		note: NOTE_TYPES
	},
	{
		id: 'X02',
		title: 'Importing a package does nothing a program can observe',
		statement: 'Importing any entry of any package adds no listener, reads or writes no storage, fetches nothing, logs nothing, starts no timer and draws no identity; all of that happens when an app is created or used.',
		over: ['configurations'],
		forall: 'every entry of every package, every module it loads',
		why: 'the tests import everything before they observe anything',
		files: [`${BR}index.ts`, `${CM}index.ts`, `${PR}index.ts`, `${BK}index.ts`, `${AP}index.ts`, `${ST}index.ts`],
		mech: [['module initialisation', `${PR}preferences.ts`]]
	},
	{
		id: 'X03',
		title: 'Every package declares what it imports and has what it exports',
		statement: 'Every module a package loads at run time is its own, built in, or of a package it declares as a dependency, a peer dependency or (bundled into it) a development dependency. Every entry it declares exists.',
		over: ['configurations'],
		forall: 'every run-time import reachable from every entry of every published package',
		why: 'inside the workspace every package resolves whether declared or not',
		files: [`${BR}index.ts`, `${PR}index.ts`, `${PB}presets_browser_gizmo.ts`],
		mech: [['imports of the entries', `${PB}presets_browser_gizmo.ts`]],
		technique: 'static analysis: syntax-directed rule over the run-time import graph of the resolved program',
		note: 'Complete over the static imports, re-exports and literal dynamic imports reachable from the sources of every entry. Trusted: the mapping of the entries in package.json to sources and that the build bundles development dependencies.'
	},
	{
		id: 'X04',
		title: 'An app given browser substitutes never touches the real ones',
		statement: 'When an app is given a storage, a navigator and a fetch, none of its parts - preferences, preference stores, languages, fetch - reads, writes or calls those of the browser instead.',
		over: ['histories', 'configurations'],
		forall: 'every operation of the parts that use them, composed by hand or by the preset',
		why: 'an absent effect on a global cannot be seen by a test that looks at the substitute',
		files: [`${BR}browser_gizmo.ts`, `${BP}browser_preferences_gizmo.ts`, `${BI}browser_i18n_gizmo.ts`, `${PB}presets_browser_gizmo.ts`],
		mech: [['storage taken from the browser part', `${BP}browser_preferences_gizmo.ts`]]
	},
	{
		id: 'X05',
		title: 'The stubbed storages of the test support are faithful storages',
		statement: 'stubStorage() gives an empty storage of its own that keeps, lists, removes and clears entries as the browser does. stubLocalStorage() and stubSessionStorage() run the stubs given for the functions stubbed, and the real storage for all others.',
		over: ['histories', 'inputs'],
		forall: 'every history of sets, removals and clears over several keys, every function stubbed or not',
		why: 'the tests try one operation of one double; the doubles are what all other tests rest on',
		files: [`${BR}testing/storage.mocks.ts`],
		mech: [['stubStorage() and ctx proxies', `${BR}testing/storage.mocks.ts`]]
	},
	{
		id: 'X06',
		title: 'Misuse of the typed functions does not compile',
		statement: 'The type checker rejects writing to read-only stores and registries, values, updaters and handlers of the wrong type, calls and connections of a command that do not fit its signature, contributions without an id, preferences that are not JSON, wrong arguments to languages, routes and error stores, and wrong options of the parts; the correct twin of each is accepted.',
		over: ['inputs'],
		forall: 'the misuses listed per function in the witnesses of sa/laws/types.mjs',
		why: 'the tests run transpiled code that is not type-checked',
		files: [`${ST}store.ts`, `${ST}state.ts`, `${ST}registry.ts`, `${CM}types.ts`, `${PR}preferences_gizmo.ts`, `${RT}routes_gizmo.ts`, `${BR}error_store.types.ts`],
		mech: [['public types', `${ST}state.ts`]],
		technique: TECH_TYPES,
		note: NOTE_TYPES
	},
	{
		id: 'X07',
		title: 'Every part works with just the parts it requires',
		statement: 'An app made of a part and just what it requires can be created and all functions of the part work, whichever of the optional parts are present.',
		over: ['configurations'],
		forall: 'every part of the repository, every subset of its optional parts, product and test apps',
		why: 'the tests compose a few full apps',
		files: [`${CM}commands_gizmo.ts`, `${PR}memory_preferences_gizmo.ts`, `${BP}browser_preferences_gizmo.ts`, `${I1}i18n_gizmo.ts`, `${BI}browser_i18n_gizmo.ts`, `${BR}browser_gizmo.ts`, `${PB}presets_browser_gizmo.ts`],
		mech: [['optional parts of the context', `${CM}commands_gizmo.ts`]]
	},
	{
		id: 'X08',
		title: 'Apps made of the same parts share nothing',
		statement: 'Two apps composed of the very same gizmo values and options start alike, and whatever is done to one - contributing, registering, setting, configuring, failing, watching - never shows in the other, whether that exists already or is made later. Only what the client itself gives to both, browser storage and the keyboard of the page are shared.',
		over: ['histories', 'configurations'],
		forall: 'every part with state, every operation on it, either app used, the other made before or after',
		why: 'the tests create one app each; state kept in a module or in the options shows only with a second app in the same process',
		files: [`${CM}commands_gizmo.ts`, `${KB}keyboard_gizmo.ts`, `${RT}routes_gizmo.ts`, `${I1}i18n_gizmo.ts`, `${PR}memory_preferences_gizmo.ts`, `${BR}browser_gizmo.ts`, `${ST}states_gizmo.ts`, `${PB}presets_browser_gizmo.ts`],
		mech: [['state made in create()', `${RT}routes_gizmo.ts`]]
	},
	{
		id: 'X09',
		title: 'What a client gives to an app stays as it was',
		statement: 'Options, contributions, key bindings, command descriptions, initial values, values set and defaults handed to the parts of an app keep their members and values, down to nested objects and lists, when the app is created and used, edits by updaters included.',
		over: ['histories', 'inputs'],
		forall: 'every part that takes objects of the client, every operation on it',
		why: 'the tests rarely look at what they passed in afterwards',
		files: [`${CM}contributions.ts`, `${CM}command.ts`, `${KB}keyBindings.ts`, `${ST}state.ts`, `${ST}registry.ts`, `${RT}routes_gizmo.ts`, `${PR}preferences_gizmo.ts`],
		mech: [['copies on write', `${ST}state.ts`]]
	},
	// ---------------------------------------------------------------- not decided
	{
		id: 'N01',
		title: 'Ids of apps created anywhere never collide',
		statement: 'Two apps created in different processes, on different machines or at different times never have the same id.',
		over: ['histories'],
		forall: 'all creations everywhere',
		why: 'uniqueness over all processes cannot be sampled',
		files: [`${ID}id_gizmo.logic.ts`],
		mech: [['id generation', `${ID}id_gizmo.logic.ts`]],
		na: 'Uniqueness rests on the quality of the random source of the host at run time, a probability no argument about the source text bounds; A02 decides the part that is in the code (each id is drawn afresh).'
	},
	{
		id: 'N02',
		title: 'Stored preference texts survive encoding for every character',
		statement: 'Every text stored as a browser preference is read back unchanged, whatever characters, lone surrogates included, it has.',
		over: ['inputs'],
		forall: 'every string of UTF-16 code units',
		why: 'the space of texts cannot be sampled',
		files: [`${BP}browser_preferences_gizmo.ts`],
		mech: [['serialize() and deserialize()', `${BP}browser_preferences_gizmo.ts`]],
		na: 'Whether the encoding is a bijection on every text is a fact about the values a third-party base64 encoder computes, which the analysis models as functions and their inverses; only execution or a solver over strings could decide it. P01 decides that writing and reading apply matching pairs.'
	},
	{
		id: 'N03',
		title: 'A key press runs the bound command exactly when it matches',
		statement: 'Pressing a key combination in a browser runs the command bound to it, and no other key press does.',
		over: ['inputs'],
		forall: 'every key event of every platform and layout',
		why: 'key events cannot be enumerated',
		files: [`${BK}browser_keyboard_gizmo.ts`, `${BK}keyBindings.ts`],
		mech: [['Mousetrap binding', `${BK}browser_keyboard_gizmo.ts`]],
		na: 'Matching events to combinations is done by Mousetrap and the browser at run time; the sources here only hand over the combination, which K01 to K03 decide.'
	},
	{
		id: 'N04',
		title: 'Overlapping asynchronous updates lose no change',
		statement: 'When several asynchronous updates of one container overlap, the final value reflects all of them.',
		over: ['schedules'],
		forall: 'every interleaving of any number of updates',
		why: 'interleavings cannot be sampled',
		files: [`${ST}state.ts`],
		mech: [['asynchronous branch of set()', `${ST}state.ts`]],
		na: 'Not a guarantee the containers give: the value resolved last replaces the whole value by design, and what the result should be depends on what the updaters do at run time. S06 decides what one asynchronous update does.'
	}
]
