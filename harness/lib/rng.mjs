export function makeRng(seed) {
	let a = (seed >>> 0) || 0x9e3779b9;
	const next = () => {
		a |= 0; a = (a + 0x6d2b79f5) | 0;
		let t = Math.imul(a ^ (a >>> 15), 1 | a);
		t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t;
		return ((t ^ (t >>> 14)) >>> 0) / 4294967296;
	};
	const rng = {
		next,
		int: (n) => Math.floor(next() * n),
		pick: (xs) => xs[Math.floor(next() * xs.length)],
		chance: (p) => next() < p,
		shuffle(xs) {
			const r = [...xs];
			for (let i = r.length - 1; i > 0; i--) {
				const j = Math.floor(next() * (i + 1));
				[r[i], r[j]] = [r[j], r[i]];
			}
			return r;
		},
		fork: () => makeRng(Math.floor(next() * 2 ** 32)),
	};
	return rng;
}
export function hashSeed(...parts) {
	let h = 2166136261;
	for (const ch of parts.join("|")) {
		h ^= ch.charCodeAt(0);
		h = Math.imul(h, 16777619);
	}
	return h >>> 0;
}
