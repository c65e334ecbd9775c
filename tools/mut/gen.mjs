// generates first-order mutants of the non-test sources: node gen.mjs [filter] > mutants.json
import fs from 'node:fs'
import path from 'node:path'
import { REPO, ts } from '../../sa/modules.mjs'

const filter = process.argv[2]
const files = []
const walk = d => {
	for (const e of fs.readdirSync(d, { withFileTypes: true })) {
		if (e.name === 'node_modules' || e.name === 'esm' || e.name === 'cjs') continue
		const p = path.join(d, e.name)
		if (e.isDirectory()) walk(p)
		else if (/\.tsx?$/.test(e.name) && !/\.(spec|unit|mocks?|testing|types|d)\.tsx?$/.test(e.name) && !p.includes('/testing/') && p.includes('/src/')) files.push(p)
	}
}
for (const g of ['frameworks', 'libraries', 'plugins', 'presets']) walk(path.join(REPO, g))
const out = []
const K = ts.SyntaxKind
const isLog = n => ts.isCallExpression(n) && ts.isPropertyAccessExpression(n.expression) && /^(trace|debug|info|notice|warn|error|planck|critical|alert|emergency)$/.test(n.expression.name.text)
for (const f of files) {
	const rel = path.relative(REPO, f)
	if (filter && !rel.includes(filter)) continue
	const text = fs.readFileSync(f, 'utf8')
	const sf = ts.createSourceFile(f, text, ts.ScriptTarget.Latest, true)
	const src = n => text.slice(n.getStart(sf), n.getEnd())
	const put = (n, repl, op) => out.push({ file: rel, start: n.getStart(sf), end: n.getEnd(), repl, op, line: sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1, was: src(n).slice(0, 120) })
	const visit = (n, inLog) => {
		if (ts.isTypeNode(n) || ts.isInterfaceDeclaration(n) || ts.isTypeAliasDeclaration(n) || ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) return
		if (isLog(n)) inLog = true
		if (ts.isExpressionStatement(n)) put(n, ';', 'drop statement')
		if (ts.isReturnStatement(n) && n.expression) {
			put(n, `return undefined as any`, 'return undefined')
			put(n, `;(${src(n.expression)});`, 'drop return')
		}
		if (ts.isIfStatement(n)) {
			put(n.expression, `!(${src(n.expression)})`, 'negate')
			put(n.expression, 'true', 'always')
			put(n.expression, 'false', 'never')
		}
		if (ts.isConditionalExpression(n)) {
			put(n, `(${src(n.whenTrue)})`, 'then')
			put(n, `(${src(n.whenFalse)})`, 'else')
		}
		if (ts.isBinaryExpression(n)) {
			const l = src(n.left)
			const r = src(n.right)
			const o = n.operatorToken.kind
			const sw = { [K.QuestionQuestionToken]: ['||'], [K.BarBarToken]: ['??', '&&'], [K.AmpersandAmpersandToken]: ['||'], [K.EqualsEqualsEqualsToken]: ['!=='], [K.ExclamationEqualsEqualsToken]: ['==='], [K.LessThanToken]: ['<=', '>'], [K.GreaterThanEqualsToken]: ['>', '<'], [K.GreaterThanToken]: ['>='], [K.PlusToken]: ['-'], [K.EqualsEqualsToken]: ['!='] }[o] ?? []
			for (const x of sw) put(n, `(${l} as any) ${x} (${r} as any)`, `${ts.tokenToString(o)} -> ${x}`)
			if ([K.QuestionQuestionToken, K.BarBarToken, K.AmpersandAmpersandToken, K.PlusToken].includes(o)) {
				put(n, `(${l})`, 'left only')
				put(n, `(${r})`, 'right only')
			}
			if (o === K.EqualsToken) put(n, `(${r})`, 'drop assignment')
		}
		if (ts.isPrefixUnaryExpression(n) && n.operator === K.ExclamationToken) put(n, src(n.operand), 'drop !')
		if (ts.isAwaitExpression(n)) put(n, `(${src(n.expression)} as any)`, 'drop await')
		if (ts.isSpreadAssignment(n)) put(n, '...({} as any)', 'drop spread')
		if (ts.isPropertyAssignment(n) || ts.isShorthandPropertyAssignment(n) || ts.isMethodDeclaration(n)) put(n, '...({} as any)', 'drop property')
		if (!inLog && (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) && !ts.isPropertyAssignment(n.parent?.parent)) put(n, n.text === '' ? "'x'" : "''", 'string')
		if (!inLog && ts.isTemplateExpression(n)) {
			for (const s of n.templateSpans) out.push({ file: rel, start: s.getStart(sf) - 2, end: s.expression.getEnd() + 1, repl: '', op: 'drop template part', line: sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1, was: src(n) })
		}
		if (ts.isNumericLiteral(n)) {
			put(n, String(Number(n.text) + 1), 'number +1')
			if (n.text !== '0') put(n, '0', 'number 0')
		}
		if (n.kind === K.TrueKeyword) put(n, 'false', 'true -> false')
		if (n.kind === K.FalseKeyword) put(n, 'true', 'false -> true')
		if (ts.isRegularExpressionLiteral(n)) {
			const m = /^\/(.*)\/([a-z]*)$/.exec(n.text)
			if (m[2]) put(n, `/${m[1]}/`, 'drop flags')
			else put(n, `/${m[1]}/g`, 'add g')
		}
		if (ts.isCallExpression(n) && !inLog) {
			n.arguments.forEach((a, i) => {
				if (a.kind !== K.FunctionExpression && a.kind !== K.ArrowFunction) {
					const as = n.arguments.map((x, j) => (j === i ? 'undefined as any' : src(x)))
					put(n, `${src(n.expression)}(${as.join(', ')})`, `argument ${i} undefined`)
				}
			})
			if (n.arguments.length === 2) put(n, `${src(n.expression)}((${src(n.arguments[1])}) as any, (${src(n.arguments[0])}) as any)`, 'swap arguments')
			if (ts.isPropertyAccessExpression(n.expression)) {
				const m = n.expression.name.text
				const o = src(n.expression.expression)
				const as = n.arguments.map(src).join(', ')
				const sw = { __proto__: null, push: ['unshift'], unshift: ['push'], forEach: ['map', 'some'], filter: ['find'], startsWith: ['includes', 'endsWith'], slice: [null], includes: [], indexOf: ['lastIndexOf'], split: [], replace: ['replaceAll'], bind: [null], trim: [null], toLowerCase: [null], getItem: [], map: [] }[m] ?? []
				for (const x of sw) put(n, x === null ? `(${o})` : `(${o} as any).${x}(${as})`, `.${m}() -> ${x}`)
			}
		}
		if (isLog(n)) put(n, 'undefined', 'drop log')
		if (ts.isArrayLiteralExpression(n) && n.elements.length) put(n, '[]', 'empty array')
		if (ts.isArrowFunction(n) && !ts.isBlock(n.body)) put(n.body, 'undefined as any', 'arrow gives undefined')
		if (ts.isVariableDeclaration(n) && n.initializer && !ts.isArrowFunction(n.initializer) && ts.isIdentifier(n.name) && n.parent.flags & ts.NodeFlags.Let) put(n.initializer, 'undefined as any', 'initial undefined')
		if (ts.isCatchClause(n)) put(n.block, `{ throw ${n.variableDeclaration ? src(n.variableDeclaration.name) : "new Error('x')"} }`, 'rethrow')
		// hoisting of per-app state to the module: variables of the enclosing function with an empty initial value
		ts.forEachChild(n, c => visit(c, inLog))
	}
	visit(sf, false)
}
const seen = new Set()
const res = out.filter(m => {
	const k = `${m.file}:${m.start}:${m.end}:${m.repl}`
	if (seen.has(k)) return false
	seen.add(k)
	return true
})
console.log(JSON.stringify(res, null, 0))
