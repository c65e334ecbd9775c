// Module graph over the repository's sources (and the few dependencies small enough to be analysed from source).
import { createRequire } from 'node:module'
import fs from 'node:fs'
import path from 'node:path'

const require = createRequire(import.meta.url)
export const REPO = process.env.JW_REPO ?? '/repo'
function loadTs() {
	for (const p of ['/opt/veriftools/node/node_modules/typescript', `${REPO}/node_modules/typescript`]) {
		try {
			return require(p)
		} catch {}
	}
	throw new Error('no TypeScript compiler found')
}
export const ts = loadTs()

/** every workspace package: name -> { dir, name, json } */
export const packages = new Map()
for (const group of ['frameworks', 'libraries', 'plugins', 'presets', 'examples', 'tools']) {
	const g = path.join(REPO, group)
	if (!fs.existsSync(g)) continue
	for (const d of fs.readdirSync(g).sort()) {
		const pj = path.join(g, d, 'package.json')
		if (!fs.existsSync(pj)) continue
		const json = JSON.parse(fs.readFileSync(pj, 'utf8'))
		packages.set(json.name, { dir: path.join(g, d), rel: `${group}/${d}`, name: json.name, json })
	}
}

export function isTestFile(f) {
	return /\.(spec|test|unit|accept|integrate|system|perf|stress|study)\.[cm]?tsx?$/.test(f)
}
export function sourceFiles(pkg) {
	const out = []
	const walk = d => {
		for (const e of fs.readdirSync(d, { withFileTypes: true })) {
			const f = path.join(d, e.name)
			if (e.isDirectory()) walk(f)
			else if (/\.tsx?$/.test(e.name) && !e.name.endsWith('.d.ts') && !isTestFile(e.name)) out.push(f)
		}
	}
	const src = path.join(pkg.dir, 'src')
	if (fs.existsSync(src)) walk(src)
	return out.sort()
}

const sfCache = new Map()
export function parse(file) {
	let sf = sfCache.get(file)
	if (!sf) {
		const text = fs.readFileSync(file, 'utf8')
		sf = ts.createSourceFile(file, text, ts.ScriptTarget.ES2022, true, file.endsWith('.ts') ? ts.ScriptKind.TS : ts.ScriptKind.JS)
		if (sf.parseDiagnostics?.length) throw new Error(`cannot parse ${file}`)
		sfCache.set(file, sf)
	}
	return sf
}

// dependencies analysed from their own (small) sources rather than modelled
const INTERPRETED = new Set(['@unional/gizmo', 'type-plus', 'unpartial', '@unional/events-plus'])

const resolveCache = new Map()
function tryFile(p) {
	const c = [p, p.replace(/\.(m|c)?js$/, '.$1ts'), `${p}.ts`, `${p}.js`, path.join(p, 'index.ts'), path.join(p, 'index.js')]
	for (const f of c) if (fs.existsSync(f) && fs.statSync(f).isFile()) return f
	return null
}
function findPkgDir(from, name) {
	let d = path.dirname(from)
	for (;;) {
		const c = path.join(d, 'node_modules', name)
		if (fs.existsSync(c)) return fs.realpathSync(c)
		const up = path.dirname(d)
		if (up === d) return null
		d = up
	}
}
function exportTarget(json, sub) {
	const pick = e => {
		if (!e) return null
		if (typeof e === 'string') return e
		for (const k of ['import', 'module', 'default', 'require']) if (e[k]) return pick(e[k])
		return null
	}
	if (json.exports) {
		if (typeof json.exports === 'string') return sub === '.' ? json.exports : null
		const t = json.exports[sub] ?? (sub === '.' && !Object.keys(json.exports)[0]?.startsWith('.') ? json.exports : null)
		return pick(t)
	}
	return sub === '.' ? (json.module ?? json.main ?? 'index.js') : null
}
/** the source entry of a workspace package, from its exports map: dist/esm outputs are mapped back to src */
export function workspaceEntry(pkg, sub) {
	const s = sub === '.' ? 'index.ts' : `${sub.slice(2)}/index.ts`
	const f = path.join(pkg.dir, 'src', s)
	if (fs.existsSync(f)) return f
	const g = path.join(pkg.dir, 'src', `${sub.slice(2)}.ts`)
	return fs.existsSync(g) ? g : null
}
/** { file } | { model: name } */
export function resolveModule(from, spec) {
	const key = `${from}\0${spec}`
	if (resolveCache.has(key)) return resolveCache.get(key)
	let r
	if (spec.startsWith('.')) {
		const f = tryFile(path.resolve(path.dirname(from), spec))
		r = f ? { file: f } : null
	} else {
		const m = /^(@[^/]+\/[^/]+|[^/]+)(\/.*)?$/.exec(spec)
		const name = m[1]
		const sub = m[2] ? `.${m[2]}` : '.'
		if (packages.has(name)) {
			const f = workspaceEntry(packages.get(name), sub)
			r = f ? { file: f } : null
		} else if (INTERPRETED.has(name)) {
			const dir = findPkgDir(from, name)
			if (dir) {
				const json = JSON.parse(fs.readFileSync(path.join(dir, 'package.json'), 'utf8'))
				const t = exportTarget(json, sub)
				const f = t && tryFile(path.join(dir, t))
				r = f ? { file: f, lib: true } : { model: spec }
			} else r = { model: spec }
		} else r = { model: spec }
	}
	resolveCache.set(key, r)
	return r
}

const K = ts.SyntaxKind
const hasMod = (n, k) => n.modifiers?.some(m => m.kind === k)
export function bindingNames(name, out = []) {
	if (ts.isIdentifier(name)) out.push(name.text)
	else for (const e of name.elements) if (!ts.isOmittedExpression(e)) bindingNames(e.name, out)
	return out
}

const infoCache = new Map()
/** static import/export tables of a module */
export function moduleInfo(file) {
	let info = infoCache.get(file)
	if (info) return info
	const sf = parse(file)
	info = { file, sf, imports: new Map(), exports: new Map(), stars: [], deps: [], lib: file.includes('/node_modules/') }
	infoCache.set(file, info)
	const dep = spec => {
		if (!info.deps.includes(spec)) info.deps.push(spec)
	}
	for (const st of sf.statements) {
		if (ts.isImportDeclaration(st)) {
			const spec = st.moduleSpecifier.text
			const c = st.importClause
			if (!c) {
				dep(spec)
				continue
			}
			if (c.isTypeOnly) continue
			let any = false
			if (c.name) {
				info.imports.set(c.name.text, { spec, name: 'default' })
				any = true
			}
			if (c.namedBindings) {
				if (ts.isNamespaceImport(c.namedBindings)) {
					info.imports.set(c.namedBindings.name.text, { spec, name: '*' })
					any = true
				} else
					for (const e of c.namedBindings.elements) {
						if (e.isTypeOnly) continue
						info.imports.set(e.name.text, { spec, name: (e.propertyName ?? e.name).text })
						any = true
					}
			}
			if (any) dep(spec)
		} else if (ts.isExportDeclaration(st)) {
			if (st.isTypeOnly) continue
			const spec = st.moduleSpecifier?.text
			if (spec) dep(spec)
			if (!st.exportClause) info.stars.push(spec)
			else if (ts.isNamespaceExport(st.exportClause)) info.exports.set(st.exportClause.name.text, { spec, name: '*' })
			else
				for (const e of st.exportClause.elements) {
					if (e.isTypeOnly) continue
					const n = (e.propertyName ?? e.name).text
					info.exports.set(e.name.text, spec ? { spec, name: n } : { local: n })
				}
		} else if (ts.isExportAssignment(st)) {
			info.exports.set('default', { local: '*default*' })
		} else if (hasMod(st, K.ExportKeyword)) {
			if (ts.isVariableStatement(st)) {
				for (const d of st.declarationList.declarations) for (const n of bindingNames(d.name)) info.exports.set(n, { local: n })
			} else if (ts.isFunctionDeclaration(st) || ts.isClassDeclaration(st) || ts.isEnumDeclaration(st)) {
				const dflt = hasMod(st, K.DefaultKeyword)
				if (ts.isFunctionDeclaration(st) && !st.body) continue
				const n = st.name?.text ?? '*default*'
				info.exports.set(dflt ? 'default' : n, { local: n })
			}
		}
	}
	return info
}

/** every text and number the sources of the repository name, other than in types and imports */
export function literals() {
	const out = new Set()
	const visit = n => {
		if (ts.isImportDeclaration(n) || ts.isExportDeclaration(n) || ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n)) return
		if (ts.isStringLiteral(n) || n.kind === ts.SyntaxKind.NoSubstitutionTemplateLiteral) n.text && out.add(n.text)
		else if (ts.isNumericLiteral(n)) out.add(Number(n.text))
		else if (ts.isPropertyAssignment(n) && ts.isIdentifier(n.name)) out.add(n.name.text)
		ts.forEachChild(n, visit)
	}
	for (const p of packages.values()) for (const f of sourceFiles(p)) visit(parse(f))
	return out
}
