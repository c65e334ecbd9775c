// node run.mjs mutants.json out.jsonl : 8 scratch copies under /tmp/mut, one process per mutant
import fs from 'node:fs'
import path from 'node:path'
import { execFileSync, spawn } from 'node:child_process'

const [inp, outp, W = '7'] = process.argv.slice(2)
const ms = JSON.parse(fs.readFileSync(inp, 'utf8'))
const done = new Set(fs.existsSync(outp) ? fs.readFileSync(outp, 'utf8').trim().split('\n').filter(Boolean).map(l => JSON.parse(l).i) : [])
const here = import.meta.dirname
fs.mkdirSync('/tmp/mut', { recursive: true })
let next = 0
const copies = []
for (let i = 0; i < Number(W); i++) {
	const d = `/tmp/mut/r${i}`
	if (!fs.existsSync(d)) {
		execFileSync('sh', ['-c', `mkdir -p ${d} && cd /repo && tar cf - --exclude=./node_modules --exclude=./.git . | (cd ${d} && tar xf -) && ln -s /repo/node_modules ${d}/node_modules`])
	} else execFileSync('sh', ['-c', `cd /repo && tar cf - --exclude=node_modules --exclude=./.git frameworks libraries plugins presets | (cd ${d} && tar xf -)`])
	copies.push(d)
}
async function worker(d) {
	while (next < ms.length) {
		const i = next++
		if (done.has(i)) continue
		const m = ms[i]
		const f = path.join(d, m.file)
		const orig = fs.readFileSync(path.join('/repo', m.file), 'utf8')
		fs.writeFileSync(f, orig.slice(0, m.start) + m.repl + orig.slice(m.end))
		const r = await new Promise(res => {
			const p = spawn('node', [path.join(here, 'one.mjs'), m.file], { env: { ...process.env, JW_REPO: d }, stdio: ['ignore', 'pipe', 'pipe'] })
			let o = ''
			let e = ''
			p.stdout.on('data', x => (o += x))
			p.stderr.on('data', x => (e += x))
			const t = setTimeout(() => p.kill('SIGKILL'), 240000)
			p.on('close', c => {
				clearTimeout(t)
				try {
					res(JSON.parse(o.trim().split('\n').at(-1)))
				} catch {
					res({ killed: 'crash', detail: (e || `exit ${c}`).slice(0, 300) })
				}
			})
		})
		fs.writeFileSync(f, orig)
		fs.appendFileSync(outp, `${JSON.stringify({ i, ...m, ...r })}\n`)
	}
}
await Promise.all(copies.map(worker))
