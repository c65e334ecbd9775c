// runs the laws (relevance order) against JW_REPO in one process; stops at the first new violation
// node one.mjs <file relative> -> JSON { killed, undecided }
import fs from 'node:fs'
import path from 'node:path'
import { prove, locText } from '../../sa/client.mjs'
import { LAWS } from '../../sa/laws/index.mjs'

const ROOT = path.resolve(import.meta.dirname, '../..')
const file = process.argv[2]
const onlyIds = process.argv[3]?.split(',')
const known = JSON.parse(fs.readFileSync(path.join(ROOT, 'known-findings.json'), 'utf8')).findings.filter(f => f.status === 'known')
const rel = id => {
	try {
		const ev = JSON.parse(fs.readFileSync(path.join(ROOT, 'evidence', `${id}.json`), 'utf8'))
		const fs_ = [...(ev.coverage.functions ?? []), ...(ev.coverage.files ?? [])]
		return fs_.some(f => f.startsWith(file)) ? (ev.wall_s ?? 1) : 1000 + ev.wall_s
	} catch {
		return 2000
	}
}
const ids = (onlyIds ?? Object.keys(LAWS)).map(id => [id, rel(id)]).sort((a, b) => a[1] - b[1])
const und = []
for (const [id] of ids) {
	const law = LAWS[id]
	for (const th of law.theorems ?? []) {
		let r
		try {
			r = prove(th, {})
		} catch (e) {
			und.push(`${id}: ${e.message}`)
			continue
		}
		const v = r.violations.find(v => !known.some(k => k.property === id && k.theorem === th.name && k.obligation === v.msg))
		if (v) {
			console.log(JSON.stringify({ killed: id, th: th.name, msg: v.msg, detail: v.detail, loc: locText(v.loc), und: und.slice(0, 5) }))
			process.exit(0)
		}
		for (const u of r.undecided.slice(0, 1)) und.push(`${id}: ${u.reason}`)
	}
	for (const rule of law.rules ?? []) {
		const r = await rule.check({})
		const v = r.violations.find(v => !known.some(k => k.property === id && k.theorem === rule.name && k.obligation === v.msg))
		if (v) {
			console.log(JSON.stringify({ killed: id, th: rule.name, msg: v.msg, detail: v.detail, und: und.slice(0, 5) }))
			process.exit(0)
		}
	}
}
console.log(JSON.stringify({ killed: null, und: [...new Set(und)].slice(0, 8) }))
