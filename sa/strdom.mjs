// String terms whose unknown parts are words over a known alphabet: positions and pieces are decided by shape.
import { concat, isConst, isSym, mk, M, resolve, strParts } from './core.mjs'

const BASE = 0xe000
/** { text, words } with one private-use character per word, or null */
export function encode(s) {
	const words = []
	let text = ''
	for (const p of strParts(s)) {
		const v = resolve(p)
		if (typeof v === 'string') text += v
		else if (isSym(v) && v.opts.word) {
			let i = words.indexOf(v)
			if (i < 0) i = words.push(v) - 1
			text += String.fromCharCode(BASE + i)
		} else return null
	}
	return { text, words }
}
export function decode(text, words) {
	const parts = []
	for (const c of text) {
		const i = c.charCodeAt(0) - BASE
		parts.push(i >= 0 && i < words.length ? words[i] : c)
	}
	return concat(...parts)
}
const isWord = (c, e) => c >= String.fromCharCode(BASE) && c.charCodeAt(0) - BASE < e.words.length
/** no character of pattern text can occur inside a word of e, or be a word */
const outside = (pat, e) => [...pat].every(c => e.words.every(w => !w.opts.word.test(c)))

/** position k of the encoded text, as a number */
function position(e, k) {
	const pre = e.text.slice(0, k)
	if (![...pre].some(c => isWord(c, e))) return k
	return mk('len', [decode(pre, e.words)], { mask: M.NUM })
}
/** encoded offset of a number, or null */
function offset(e, n) {
	n = resolve(n)
	let start = 0
	let c
	if (typeof n === 'number') {
		if (n < 0) {
			start = e.text.length
			c = n
		} else c = n
	} else if (isSym(n)) {
		let base = n
		c = 0
		while (isSym(base) && (base.op === '+' || base.op === '-') && typeof resolve(base.args[1]) === 'number') {
			c += (base.op === '+' ? 1 : -1) * resolve(base.args[1])
			base = resolve(base.args[0])
		}
		if (!isSym(base) || base.op !== 'len') return null
		const p = encode(base.args[0])
		if (!p) return null
		const pre = [...p.text].map(ch => (isWord(ch, p) ? String.fromCharCode(BASE + e.words.indexOf(p.words[ch.charCodeAt(0) - BASE])) : ch)).join('')
		if (!e.text.startsWith(pre)) return null
		start = pre.length
	} else return null
	const step = c < 0 ? -1 : 1
	for (let i = 0; i < Math.abs(c); i++) {
		const at = step > 0 ? start : start - 1
		if (at < 0 || at >= e.text.length) return step > 0 ? e.text.length : 0
		if (isWord(e.text[at], e)) return null
		start += step
	}
	return start
}
function literalOf(source) {
	const lit = source.replace(/\\([^a-zA-Z0-9])/g, '\u0001$1')
	for (let i = 0; i < lit.length; i++) {
		if (lit[i] === '\u0001') {
			i++
			continue
		}
		if (/[.^$*+?()[\]{}|\\]/.test(lit[i])) return null
	}
	return lit.replace(/\u0001/g, '')
}
/** result of a String method on a structured string, or undefined when the shape does not decide it */
export function structured(name, s, args, regexOf) {
	const e = encode(s)
	if (!e || !e.words.length) return undefined
	const a = args.map(resolve)
	switch (name) {
		case 'indexOf':
		case 'lastIndexOf': {
			if (a.length > 1 || typeof a[0] !== 'string' || !outside(a[0], e)) return undefined
			const k = e.text[name](a[0])
			return k < 0 ? -1 : position(e, k)
		}
		case 'slice':
		case 'substring': {
			const from = a[0] === undefined ? 0 : name === 'substring' && typeof a[0] === 'number' && a[0] < 0 ? 0 : offset(e, a[0])
			const to = a[1] === undefined ? e.text.length : name === 'substring' && typeof a[1] === 'number' && a[1] < 0 ? 0 : offset(e, a[1])
			if (from === null || to === null) return a.every(x => x === undefined || typeof x === 'number') ? mk('wordpart', [s, name, ...a], { mask: M.STR }) : undefined
			return decode(e.text[name](from, to), e.words)
		}
		case 'includes': {
			if (a.length > 1 || typeof a[0] !== 'string' || !outside(a[0], e)) return undefined
			return e.text.includes(a[0])
		}
		case 'split': {
			if (a.length > 1 || !a[0] || typeof a[0] !== 'string' || !outside(a[0], e)) return undefined
			return e.text.split(a[0]).map(x => decode(x, e.words))
		}
		case 'replace':
		case 'replaceAll': {
			const rx = regexOf(a[0])
			const lit = rx ? literalOf(rx.source) : a[0]
			if (typeof lit !== 'string' || !lit || !outside(lit, e) || typeof a[1] !== 'string' || a[1].includes('$')) return undefined
			if (rx && /[^gu]/.test(rx.flags)) return undefined
			if (rx && name === 'replaceAll' && !rx.flags.includes('g')) return undefined
			return decode(e.text[rx?.flags.includes('g') ? 'replaceAll' : name](lit, a[1]), e.words)
		}
		case 'charAt':
		case 'at': {
			const k = offset(e, a[0] ?? 0)
			if (k === null || k >= e.text.length || isWord(e.text[k], e)) return undefined
			return e.text[k]
		}
		case 'trim':
		case 'trimStart':
		case 'trimEnd':
			if (e.words.some(w => w.opts.word.test(' '))) return undefined
			return decode(e.text[name](), e.words)
	}
	return undefined
}
/** sentence-case drops leading separators */
export function sentenceArg(s) {
	const parts = strParts(s).slice()
	while (parts.length && typeof parts[0] === 'string') {
		const t = parts[0].replace(/^[^A-Za-z0-9]+/, '')
		if (t) {
			parts[0] = t
			break
		}
		parts.shift()
	}
	return concat(...parts)
}
