// The single source of properties.jsonl and MANIFEST.json: node tools/props.mjs
import fs from 'node:fs'
import path from 'node:path'
import { fileURLToPath } from 'node:url'
import { LAWS } from '../sa/laws/index.mjs'
import { PROPS } from './props.data.mjs'

const ROOT = path.dirname(path.dirname(fileURLToPath(import.meta.url)))
const NOTE_AI = 'A sound-by-construction abstract interpretation of the current sources: every obligation is discharged in every trace partition of the most general client described in DESIGN.md; trusted are the models of third-party modules and host objects, and the bound on the number of client operations stated there.'
const TECH_AI = 'static analysis: interprocedural abstract interpretation (value numbering, allocation-site heap, trace partitioning, loop summaries) of the resolved program under a most general client'

const ids = new Set()
for (const p of PROPS) {
	if (ids.has(p.id)) throw new Error(`duplicate ${p.id}`)
	ids.add(p.id)
	if (p.title.length > 80) throw new Error(`${p.id}: title too long (${p.title.length})`)
	if (!p.na && !LAWS[p.id]) throw new Error(`${p.id} has no law`)
	for (const f of p.files) if (!fs.existsSync(path.join(process.env.REPO ?? '/repo', f))) throw new Error(`${p.id}: no file ${f}`)
}
for (const id of Object.keys(LAWS)) if (!ids.has(id)) throw new Error(`law ${id} has no property`)

fs.writeFileSync(
	path.join(ROOT, 'properties.jsonl'),
	PROPS.map(p => JSON.stringify({ id: p.id, title: p.title, statement: p.statement, quantifier: { over: p.over, text: p.forall }, why_tests_cant: p.why, anchors: { files: p.files, mechanism: p.mech.map(([name, where]) => ({ name, where })) } })).join('\n') + '\n'
)
const claimed = PROPS.filter(p => !p.na)
fs.writeFileSync(
	path.join(ROOT, 'MANIFEST.json'),
	JSON.stringify(
		{
			version: 1,
			setup_cmd: 'node sa/selftest.mjs',
			checks: claimed.map(p => ({
				property: p.id,
				quick_cmd: `node sa/run.mjs ${p.id} --tier quick`,
				thorough_cmd: `node sa/run.mjs ${p.id} --tier thorough`,
				technique: p.technique ?? TECH_AI,
				level: 'other',
				level_note: p.note ?? NOTE_AI
			})),
			not_applicable: PROPS.filter(p => p.na).map(p => ({ property: p.id, reason: p.na }))
		},
		null,
		1
	) + '\n'
)
console.log(`${claimed.length} claimed, ${PROPS.length - claimed.length} not applicable`)

// the table of planted bugs in DESIGN.md
const dir = path.join(ROOT, 'seeded')
if (fs.existsSync(dir)) {
	const rows = fs.readdirSync(dir).sort().map(id => {
		const m = JSON.parse(fs.readFileSync(path.join(dir, id, 'meta.json'), 'utf8'))
		return `| ${id} | ${m.property} | ${m.what_it_breaks} | ${m.needs} |`
	})
	const f = path.join(ROOT, 'DESIGN.md')
	const s = fs.readFileSync(f, 'utf8')
	fs.writeFileSync(f, s.replace(/<!-- seeds -->[^]*<!-- \/seeds -->/, `<!-- seeds -->\n| bug | caught by | what it breaks | needs |\n| --- | --- | --- | --- |\n${rows.join('\n').replace(/\$/g, '$$$$')}\n<!-- /seeds -->`))
}
