// Behaviours of a transition graph: edge-covering walks and long random walks.

/** Walks from `init` that together take every edge in `want` (default: all reachable edges). */
export function* coveringWalks(graph, init, rng, { maxLen = 40, want } = {}) {
	const left = new Set();
	const reach = new Set([init]);
	const queue = [init];
	while (queue.length) {
		const s = queue.pop();
		for (const e of graph.out[s]) {
			if (!want || want(e)) left.add(e.id);
			if (!reach.has(e.t)) { reach.add(e.t); queue.push(e.t); }
		}
	}
	const pending = new Map();
	for (const s of reach) {
		pending.set(s, rng.shuffle(graph.out[s].filter((e) => left.has(e.id))));
	}
	while (left.size) {
		const walk = [];
		let s = init;
		while (walk.length < maxLen && left.size) {
			const here = pending.get(s);
			while (here.length && !left.has(here[here.length - 1].id)) here.pop();
			if (here.length) {
				const e = here.pop();
				left.delete(e.id);
				walk.push(e);
				s = e.t;
				continue;
			}
			const path = nearest(graph, s, pending, left, rng);
			if (!path) break;
			if (walk.length && walk.length + path.length > maxLen) break;
			walk.push(...path);
			s = path[path.length - 1].t;
		}
		if (!walk.length) return;
		yield walk;
	}
}

function nearest(graph, from, pending, left, rng) {
	const prev = new Map([[from, null]]);
	let frontier = [from];
	while (frontier.length) {
		const nextF = [];
		for (const s of frontier) {
			for (const e of graph.out[s]) {
				if (prev.has(e.t)) continue;
				prev.set(e.t, e);
				const p = pending.get(e.t);
				if (p?.some((x) => left.has(x.id))) {
					const path = [];
					let cur = e;
					while (cur) { path.push(cur); cur = prev.get(cur.s); }
					return path.reverse();
				}
				nextF.push(e.t);
			}
		}
		frontier = rng.shuffle(nextF);
	}
	return null;
}

export function randomWalk(graph, init, rng, len, weight) {
	const walk = [];
	let s = init;
	for (let i = 0; i < len; i++) {
		const es = graph.out[s];
		if (!es.length) break;
		let e;
		if (weight) {
			const ws = es.map(weight);
			let x = rng.next() * ws.reduce((a, b) => a + b, 0);
			let k = 0;
			while (k < es.length - 1 && (x -= ws[k]) > 0) k++;
			e = es[k];
		} else e = rng.pick(es);
		walk.push(e);
		s = e.t;
	}
	return walk;
}
