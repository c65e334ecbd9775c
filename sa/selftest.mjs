// The analyser's own semantics against the engine's, on concrete fixtures; and that an obligation that does not hold is reported.
import path from 'node:path'
import { fileURLToPath, pathToFileURL } from 'node:url'
import fs from 'node:fs'
import os from 'node:os'
import { ts } from './modules.mjs'
import { prove } from './client.mjs'
import { lookupExport } from './interp.mjs'

const here = path.dirname(fileURLToPath(import.meta.url))
const tmp = fs.mkdtempSync(path.join(os.tmpdir(), 'sa-selftest-'))
let bad = 0
try {
	let n = 0
	for (const name of ['semantics', 'language']) {
		const file = path.join(here, `fixtures/${name}.ts`)
		const js = ts.transpileModule(fs.readFileSync(file, 'utf8'), { compilerOptions: { target: ts.ScriptTarget.ES2022, module: ts.ModuleKind.ESNext, useDefineForClassFields: true } }).outputText
		const f = path.join(tmp, `${name}.mjs`)
		fs.writeFileSync(f, js)
		const real = await import(pathToFileURL(f))
		for (const [name, fn] of Object.entries(real)) {
			const want = await fn()
			const r = prove({
				name,
				stages: [
					function* (I) {
						const g = yield* lookupExport(file, name)
						const v = yield* I.await(yield* I.call(g))
						const got = yield* I.elems(v)
						I.ok(got.length === want.length, name, `${got.length} values instead of ${want.length}`)
						for (let i = 0; i < want.length; i++) I.eq(got[i], want[i], `${name}[${i}]`)
					}
				]
			})
			n++
			if (r.violations.length || r.undecided.length || !r.obligations) {
				bad++
				console.log(`selftest ${name}: ${JSON.stringify([...r.violations.map(v => `${v.msg} ${v.detail ?? ''}`), ...r.undecided.map(u => `${u.reason} ${u.msg} ${u.loc?.getStart ? u.loc.getText().slice(0, 60) : ''}`)])}`)
			}
		}
	}
	// an obligation that fails for one value only is reported
	const r = prove({
		name: 'negative',
		stages: [
			function* (I) {
				const v = I.val('v')
				I.ok(I.truthy(v), 'every value is truthy')
			}
		]
	})
	if (!r.violations.length) {
		bad++
		console.log('selftest: a false obligation is not reported')
	}
	console.log(`selftest: ${n} fixtures, ${bad} disagreements`)
} finally {
	fs.rmSync(tmp, { recursive: true, force: true })
}
process.exit(bad ? 1 : 0)
