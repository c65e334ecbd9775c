// Compile-fail witnesses: programs over the public API of the current sources, type-checked and never run.
import path from 'node:path'
import { REPO, packages, ts } from './modules.mjs'

/** type-checks texts, each a module of its own; returns the errors of each, as text */
export function typecheck(texts) {
	const paths = {}
	for (const [n, p] of packages) {
		paths[n] = [path.join(p.dir, 'src/index.ts')]
		paths[`${n}/testing`] = [path.join(p.dir, 'src/testing/index.ts')]
	}
	const options = {
		strict: true,
		module: ts.ModuleKind.ESNext,
		moduleResolution: ts.ModuleResolutionKind.Bundler,
		target: ts.ScriptTarget.ES2022,
		lib: ['lib.es2023.d.ts', 'lib.dom.d.ts', 'lib.dom.iterable.d.ts'],
		noEmit: true,
		skipLibCheck: true,
		baseUrl: REPO,
		paths,
		types: [],
		esModuleInterop: true
	}
	const dir = path.join(REPO, 'examples/browser/src')
	const files = new Map(texts.map((t, i) => [path.join(dir, `__witness_${i}.ts`), t]))
	const host = ts.createCompilerHost(options)
	const { getSourceFile, fileExists, readFile } = host
	host.getSourceFile = (f, ...a) => (files.has(f) ? ts.createSourceFile(f, files.get(f), options.target, true) : getSourceFile.call(host, f, ...a))
	host.fileExists = f => files.has(f) || fileExists.call(host, f)
	host.readFile = f => files.get(f) ?? readFile.call(host, f)
	const prog = ts.createProgram([...files.keys()], options, host)
	const sources = prog.getSourceFiles().filter(f => f.fileName.startsWith(REPO) && !f.fileName.includes('node_modules') && !files.has(f.fileName)).map(f => path.relative(REPO, f.fileName))
	// `any` in place of a type the sources should give would make every witness pass: unresolved imports show as errors here
	const errors = [...files.keys()].map(f => {
		const sf = prog.getSourceFile(f)
		return [...prog.getSyntacticDiagnostics(sf), ...prog.getSemanticDiagnostics(sf)].map(d => ({ code: d.code, line: d.start === undefined ? 0 : sf.getLineAndCharacterOfPosition(d.start).line, text: ts.flattenDiagnosticMessageText(d.messageText, ' ').slice(0, 300) }))
	})
	return { errors, sources }
}

/**
 * witnesses: {name, prelude, good: [expr...], bad: [expr...], loc}
 * every good program must be accepted, every bad one rejected
 */
export function witnessRule(name, make) {
	return {
		name,
		check() {
			const ws = make()
			const jobs = []
			for (const w of ws) {
				for (const g of w.good) jobs.push({ w, ok: true, code: g })
				for (const b of w.bad) jobs.push({ w, ok: false, code: b })
			}
			const { errors, sources } = typecheck(jobs.map(j => `${j.w.prelude}\n${j.code}\nexport {}\n`))
			const out = { instances: jobs.length, violations: [], samples: [], sources }
			jobs.forEach((j, i) => {
				const es = errors[i]
				// the imports of a program must resolve whatever it tests
				const broken = es.find(e => e.code === 2307 || e.code === 2305 || e.code === 1005)
				if (j.ok && es.length) out.violations.push({ msg: `${j.w.name}: accepted: ${j.code}`, detail: es[0].text, loc: j.w.loc })
				else if (!j.ok && broken) out.violations.push({ msg: `${j.w.name}: resolves: ${j.code}`, detail: broken.text, loc: j.w.loc })
				else if (!j.ok && !es.length) out.violations.push({ msg: `${j.w.name}: rejected: ${j.code}`, detail: 'the type checker accepts it', loc: j.w.loc })
				else if (out.samples.length < 6) out.samples.push(j.ok ? `accepted: ${j.code}` : `rejected: ${j.code} -- ${es[0].text.slice(0, 120)}`)
			})
			return out
		}
	}
}
