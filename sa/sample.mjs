// Positions inside unknown texts. A condition about a position or a length may rule a partition out without the
// facts showing it; before a difference is reported there, its terms and conditions are compared for texts of a few
// lengths. A partition no such text satisfies, or where none shows the difference, is undecided.
import { M, X, isConst, isMany, isSym, maskOf, resolve, strParts, termById } from './core.mjs'

const POSITIONAL = /^(charAt|len|wordpart|positionIn|positionAfter|String\.(slice|substring|substr|charAt|at|indexOf|lastIndexOf|charCodeAt|codePointAt|replace|replaceAll|match|split)|RegExp\.test)$/
const LENGTHS = [1, 2, 3, 5, 8, 20, 60]
class No extends Error {}

function isText(v) {
	return isSym(v) && v.args.length === 0 && !(maskOf(v) & ~M.STR)
}
function positional(v, seen = new Set()) {
	if (!isSym(v) || seen.has(v)) return false
	seen.add(v)
	if (POSITIONAL.test(v.op) && isSym(v.args[0]) && (isText(resolve(v.args[0])) || resolve(v.args[0])?.op === 'str' || positional(v.args[0], seen))) return true
	return v.args.some(a => positional(a, seen))
}
function texts(v, out) {
	if (isMany(v)) return
	v = resolve(v)
	if (isText(v)) out.add(v)
	else if (isSym(v)) for (const a of v.args) texts(a, out)
}
function ev(v, env, free) {
	v = resolve(v)
	if (!isSym(v)) {
		if (isConst(v)) return v
		throw new No()
	}
	if (env.has(v)) return env.get(v)
	return op(v, env, free)
}
/** free: an operation not known here gives something of its own for every argument */
function op(v, env, free) {
	const a = v.args.map(x => {
		if (isMany(x)) throw new No()
		return ev(x, env, free)
	})
	switch (v.op) {
		case 'str': return a.join('')
		case 'len': if (a.length === 1 && typeof a[0] === 'string') return a[0].length; break
		case 'charAt': if (typeof a[0] === 'string') return a[0][a[1]]; break
		case 'wordpart': return a[0][a[1]](...a.slice(2))
		case 'positionIn': if (typeof a[0] === 'string') return a[0].indexOf(a[1]); break
		case 'sentenceCase': a[0] = String(a[0]).replace(/^[^A-Za-z0-9]+/, ''); break
		case '+': return a[0] + a[1]
		case '-': return a[0] - a[1]
		case '*': return a[0] * a[1]
		case '<': return a[0] < a[1]
		case '<=': return a[0] <= a[1]
		case '>': return a[0] > a[1]
		case '>=': return a[0] >= a[1]
		case '==': return a[0] == a[1]
	}
	const rx = x => {
		const r = /^\/(.*)\/([a-z]*)$/s.exec(x)
		return r ? new RegExp(r[1], r[2]) : x
	}
	if (v.op === 'RegExp.test' && typeof a[1] === 'string') return rx(a[0]).test(a[1])
	if (/^String\.replace(All)?$/.test(v.op) && typeof a[0] === 'string' && typeof a[2] === 'string') return a[0][v.op.slice(7)](rx(a[1]), a[2])
	const m = /^String\.(slice|substring|substr|charAt|at|indexOf|lastIndexOf|charCodeAt|codePointAt|includes|startsWith|endsWith|trim)$/.exec(v.op)
	if (m && typeof a[0] === 'string') return a[0][m[1]](...a.slice(1))
	if (free) return `${v.op}(${JSON.stringify(a)})`
	throw new No()
}
const PLAIN = 'bcdfghjklmnpqrstvwxyzaeiou'
const RICH = ' .aQ-7_/:%A\u00e9\t+*"\'\\{}$#@!~'
/** n characters of the alphabet of v: letters, or anything in it, or a text given followed by letters */
function text(v, i, n, how) {
	const set = how === 'rich' ? RICH : PLAIN
	const from = [...set].filter(c => !v.opts?.word || v.opts.word.test(c))
	if (!from.length) throw new No()
	const head = how === 'plain' || how === 'rich' ? '' : how
	if (head && v.opts?.word && ![...head].every(c => v.opts.word.test(c))) return null
	let s = head
	for (let k = 0; s.length < n; k++) s += from[(7 * i + (how === 'rich' ? 1 : 3) * k) % from.length]
	return s
}
function* valuations(vars, given) {
	const forms = v => [...(v.opts?.word ? [] : [['plain', 0]]), ...['plain', 'rich', ...given].flatMap(h => LENGTHS.map(n => [h, n]))]
	const of = (v, i, [h, n]) => text(v, i, n, h)
	if (vars.length <= 2) {
		for (const x of vars.length ? forms(vars[0]) : [['plain', 0]])
			for (const y of vars.length > 1 ? forms(vars[1]) : [['plain', 0]]) {
				const vs = vars.map((v, i) => of(v, i, i ? y : x))
				if (vs.every(t => t !== null)) yield new Map(vars.map((v, i) => [v, vs[i]]))
			}
		return
	}
	for (const x of forms(vars[0]))
		for (const y of forms(vars[1])) {
			const vs = vars.map((v, i) => of(v, i, i % 2 ? y : x))
			if (vs.every(t => t !== null)) yield new Map(vars.map((v, i) => [v, vs[i]]))
		}
}
/** the texts a term looks for */
function literals(v, out, depth = 0) {
	if (isMany(v) || depth > 8) return
	v = resolve(v)
	if (!isSym(v)) return
	for (const a of v.args.slice(POSITIONAL.test(v.op) ? 1 : 0)) {
		const r = isMany(a) ? a : resolve(a)
		if (typeof r === 'string' && r && POSITIONAL.test(v.op) && !/^\d+$/.test(r)) out.add(/^\/.+\/[a-z]*$/s.test(r) ? r.replace(/^\/|\/[a-z]*$/g, '').replace(/[\\^$]/g, '') : r)
	}
	for (const a of v.args) literals(a, out, depth + 1)
}
/**
 * null: nothing here depends on positions; otherwise { feasible, differs }: whether some sampled texts satisfy the
 * conditions of the partition, and whether a and b differ for some of them.
 */
export function sampled(...ab) {
	const conds = []
	for (const [id, f] of X.S.facts) {
		const t = termById(id)
		if (t && t.args.length && positional(t)) conds.push([t, f])
	}
	if (!conds.length && !ab.some(x => positional(resolve(x)))) return null
	const vars = new Set()
	for (const [t] of conds) for (const a of t.args) texts(a, vars)
	for (const x of ab) texts(x, vars)
	if (!vars.size) return null
	// facts about the texts themselves
	for (const v of vars) {
		const f = X.S.facts.get(v.id)
		if (f) conds.push([v, f])
	}
	const given = new Set()
	for (const x of [...ab, ...conds.map(c => c[0])]) literals(x, given)
	let feasible = false
	let differs = false
	try {
		for (const env of valuations([...vars], [...given].slice(0, 4))) {
			if (!conds.every(([t, f]) => holds(t, f, env))) continue
			feasible = true
			if (ab.length === 2 && !Object.is(ev(ab[0], env, true), ev(ab[1], env, true))) differs = true
			if (differs || ab.length !== 2) break
		}
	} catch (e) {
		if (e instanceof No || e instanceof TypeError || e instanceof RangeError) return feasible ? null : ab.length === 2 ? null : { feasible: true }
		throw e
	}
	return { feasible, differs }
}
function holds(t, f, env) {
	let x
	try {
		x = env.has(t) ? env.get(t) : op(t, env)
	} catch (e) {
		if (e instanceof No) return true
		throw e
	}
	if (f.truthy !== undefined && f.truthy !== !!x) return false
	for (const [want, list] of [[true, 'sub' in f ? [f.sub] : []], [false, f.ne ?? []]])
		for (const y of list) {
			let z
			try {
				z = ev(y, env)
			} catch (e) {
				if (e instanceof No) continue
				throw e
			}
			if (Object.is(x, z) !== want) return false
		}
	return true
}
