// node sa/run.mjs <ID> [--tier quick|thorough]
import fs from 'node:fs'
import path from 'node:path'
import { fileURLToPath } from 'node:url'
import { X, fmtLoc } from './core.mjs'
import { prove, locText } from './client.mjs'
import { REPO } from './modules.mjs'
import { LAWS } from './laws/index.mjs'

const here = path.dirname(fileURLToPath(import.meta.url))
const ROOT = path.dirname(here)
const args = process.argv.slice(2)
const id = args[0]
const tier = args.includes('--tier') ? args[args.indexOf('--tier') + 1] : (process.env.VERIF_TIER ?? 'quick')
const verbose = args.includes('-v')
const only = args.includes('--only') ? args[args.indexOf('--only') + 1] : null
const law = LAWS[id]
if (!law) {
	console.error(`unknown property ${id}`)
	process.exit(2)
}
const t0 = Date.now()
const deep = tier === 'thorough'
const end = t0 + 1000 * (deep ? 780 : 600)
const known = fs.existsSync(path.join(ROOT, 'known-findings.json')) ? JSON.parse(fs.readFileSync(path.join(ROOT, 'known-findings.json'), 'utf8')).findings.filter(f => f.property === id && f.status === 'known') : []

let obligations = 0
let discharged = 0
let partitions = 0
const violations = []
const undecided = []
const samples = []
const perTheorem = []
const sources = new Set()
for (const th of law.theorems ?? []) {
	if (only && !th.name.includes(only)) continue
	const s = Date.now()
	let r
	try {
		r = prove(th, { limit: deep ? 200000 : undefined, tier, seconds: deep ? 300 : 90, end })
	} catch (e) {
		// the analyser met something it cannot represent: no verdict for this theorem
		r = { violations: [], undecided: [{ reason: `analyser: ${e.message}`, msg: 'theorem', loc: null }], obligations: 0, discharged: 0, partitions: 0, samples: [] }
		if (verbose) console.log(e.stack)
	}
	obligations += r.obligations
	discharged += r.discharged
	partitions += r.partitions
	for (const v of r.violations) violations.push({ ...v, theorem: th.name })
	for (const u of r.undecided) undecided.push({ ...u, theorem: th.name })
	samples.push(...r.samples.slice(0, 1).map(x => `${th.name}: ${x}`))
	perTheorem.push({ theorem: th.name, obligations: r.obligations, discharged: r.discharged, partitions: r.partitions, undecided: r.undecided.length, ms: Date.now() - s })
	if (verbose) console.log(`${r.violations.length ? 'BAD ' : r.undecided.length ? 'UND ' : 'ok  '} ${th.name}  obligations ${r.discharged}/${r.obligations} partitions ${r.partitions} ${Date.now() - s}ms`)
}
for (const rule of law.rules ?? []) {
	if (only && !rule.name.includes(only)) continue
	const s = Date.now()
	let r
	try {
		r = await rule.check({ tier })
	} catch (e) {
		undecided.push({ reason: `analyser: ${e.message}`, msg: 'rule', loc: null, theorem: rule.name })
		if (verbose) console.log(e.stack)
		continue
	}
	for (const f of r.sources ?? []) sources.add(f)
	obligations += r.instances
	discharged += r.instances - r.violations.length
	for (const v of r.violations) violations.push({ ...v, theorem: rule.name, path: v.path ?? [] })
	samples.push(...(r.samples ?? []).slice(0, 3).map(x => `${rule.name}: ${x}`))
	perTheorem.push({ theorem: rule.name, obligations: r.instances, discharged: r.instances - r.violations.length, partitions: 0, undecided: 0, ms: Date.now() - s })
	if (verbose) console.log(`${r.violations.length ? 'BAD ' : 'ok  '} ${rule.name}  instances ${r.instances}`)
}

const text = l => (typeof l === 'string' ? l : locText(l))
const groups = new Map()
for (const v of violations) {
	const k = `${v.theorem}\0${v.msg}`
	if (!groups.has(k)) groups.set(k, { ...v, count: 0 })
	groups.get(k).count++
}
const functions = [...new Set([...X.stats.calls].map(n => fmtLoc(n)).filter(f => !f.includes('node_modules')))].map(f => f.replace(`${REPO}/`, '')).sort()
let bad = 0
const report = []
for (const g of groups.values()) {
	const k = known.find(f => f.theorem === g.theorem && f.obligation === g.msg)
	if (k) {
		console.log(`KNOWN-FINDING: property=${id} ${k.what}`)
		continue
	}
	bad++
	report.push({ theorem: g.theorem, obligation: g.msg, detail: g.detail, construct: text(g.loc), partitions: g.count, path: (g.path ?? []).map(p => `${p.label}  [${p.why}${p.loc ? ` at ${text(p.loc)}` : ''}]`) })
}
const ev = {
	property: id,
	tier,
	seed: Number(process.env.VERIF_SEED ?? 1),
	level: 'other',
	coverage: {
		explanation: law.explanation ?? 'Abstract interpretation of the current sources under the most general client of this property: obligations are judged at the API boundary in every trace partition; unknown values are value numbers, unknown collections are summarised segments.',
		obligations,
		discharged,
		undecided: undecided.length,
		undecided_reasons: [...new Set(undecided.map(u => `${u.theorem}: ${u.reason} (${u.msg})`))].slice(0, 20),
		theorems: perTheorem,
		partitions,
		branches: X.stats.branches,
		loop_summaries: X.stats.loops,
		functions_analysed: functions.length,
		functions: functions.slice(0, 120),
		call_sites: X.stats.callSites.size,
		call_sites_with_several_callees: [...X.stats.indirect.values()].filter(x => x.size > 1).length,
		call_sites_reaching_values_of_the_client: [...X.stats.indirect.values()].filter(x => x.has('value') || x.has('client')).length,
		dynamic_member_accesses: X.stats.dynamic.size,
		samples: samples.slice(0, 12),
		...(sources.size ? { files_analysed: sources.size, files: [...sources].sort().slice(0, 120) } : {})
	},
	assumptions: law.assumptions ?? ['third-party modules behave as modelled in sa/models.mjs', 'the ECMAScript built-ins and DOM host objects behave as modelled in sa/realm.mjs'],
	wall_s: (Date.now() - t0) / 1000,
	violations: bad
}
if (!only) {
	fs.mkdirSync(path.join(ROOT, 'evidence'), { recursive: true })
	fs.writeFileSync(path.join(ROOT, 'evidence', `${id}.json`), JSON.stringify(ev, null, 1))
}
console.log(`${id}: ${discharged}/${obligations} obligations discharged in ${partitions} partitions over ${functions.length} functions (${X.stats.callSites.size} call sites), ${undecided.length} undecided, ${ev.wall_s.toFixed(1)}s`)
for (const u of [...new Map(undecided.map(u => [`${u.theorem}${u.reason}${u.msg}`, u])).values()].slice(0, 8)) console.log(`  UNDECIDED ${u.theorem}: ${u.reason} -- ${u.msg} at ${text(u.loc)}`)
if (bad) {
	const rp = path.join(ROOT, 'evidence', `${id}.violation.json`)
	fs.writeFileSync(rp, JSON.stringify({ property: id, violations: report }, null, 1))
	for (const r of report.slice(0, 8)) {
		console.log(`  ${r.construct}: ${r.theorem}: ${r.obligation} -- ${r.detail}`)
		if (r.path.length) console.log(`    when ${r.path.slice(-8).join('; ')}`)
	}
	console.log(`VIOLATION property=${id} replay=${rp}`)
	process.exit(1)
}
