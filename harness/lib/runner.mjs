// Replays the behaviours of a specification's transition graph into a world that drives real code.
import { hashSeed, makeRng } from "./rng.mjs";
import { exploreGraph } from "./tlc.mjs";
import { coveringWalks, randomWalk } from "./walks.mjs";

/**
 * spec: options for exploreGraph (module, cfg); kinds: names of worlds; world(kind, rng): {step(a, pre, post), dispose()}
 * shard: [i, n] replays every n-th walk only (the others are left to other processes).
 * step returns (a promise of) a list of {tag, text}; tags: the tags that concern this property.
 */
export async function runGraph(ctx, { spec, kinds, world, tags, isInit, walkLen = 30, random = 8, randomLen = 60, share = true, want, shard = [0, 1] }) {
	const stats = { states: 0, transitions: 0, steps: 0, walks: 0, foreign: 0, perKind: {}, actions: {}, samples: [] };
	const graph = await exploreGraph(spec);
	const tagSet = new Set(tags);
	stats.states = graph.tlc.distinct;
	stats.transitions = graph.edges;
	const init = isInit ? graph.states.findIndex(isInit) : graph.inits[0];
	if (init === undefined || init < 0) throw new Error(`no initial state in the graph of ${spec.module}`);
	ctx.log(`${spec.module}: ${graph.tlc.distinct} states, ${graph.edges} transitions (TLC ${graph.tlc.seconds.toFixed(1)}s)`);
	const runOne = async (kind, walk, label) => {
		const seed = hashSeed(ctx.seed, spec.module, kind, label);
		const w = await world(kind, makeRng(seed));
		stats.walks++;
		if (stats.samples.length < 2) stats.samples.push({ kind, walk: walk.slice(0, 8).map((e) => e.a) });
		try {
			for (let i = 0; i < walk.length; i++) {
				const e = walk[i];
				stats.steps++;
				stats.perKind[kind] = (stats.perKind[kind] ?? 0) + 1;
				stats.actions[e.a.name] = (stats.actions[e.a.name] ?? 0) + 1;
				const found = await w.step(e.a, graph.states[e.s], graph.states[e.t]);
				const mine = found.find((p) => p.tag === "error" || tagSet.has(p.tag));
				if (mine) {
					const known = ctx.violation({
						suite: spec.module, kind, seed, step: i, action: e.a, tag: mine.tag, text: mine.text, key: mine.key ?? mine.text,
						setting: w.describe?.(), walk: walk.slice(0, i + 1).map((x) => x.a),
					});
					if (known !== "known") return;
				}
				if (found.length && !mine) { stats.foreign++; return; }
			}
		} finally {
			await w.dispose?.();
		}
	};
	const full = ctx.thorough || !share ? kinds : kinds.slice(0, 1);
	const rest = kinds.filter((k) => !full.includes(k));
	for (const [group, label] of [...full.map((k) => [[k], k]), ...(rest.length ? [[rest, "rest"]] : [])]) {
		let i = 0;
		for (const walk of coveringWalks(graph, init, makeRng(hashSeed(ctx.seed, spec.module, label)), { maxLen: walkLen, want })) {
			const mine = i % shard[1] === shard[0];
			if (mine) await runOne(group[Math.floor(i / shard[1]) % group.length], walk, `${label}${i}`);
			i++;
			if (ctx.done()) return result(stats);
		}
	}
	for (const kind of kinds) {
		const rng = makeRng(hashSeed(ctx.seed, spec.module, kind, "random"));
		for (let i = 0; i < (ctx.thorough ? random * 20 : random); i++) {
			const walk = randomWalk(graph, init, rng, randomLen);
			if (i % shard[1] !== shard[0]) continue;
			await runOne(kind, walk, `x${i}`);
			if (ctx.done()) return result(stats);
		}
	}
	return result(stats);
}

export function mergeCoverage(a, b) {
	const out = { ...a };
	for (const k of ["states", "transitions", "traces_validated_against_impl", "steps_replayed", "traces_cut_short_by_other_properties"]) out[k] = (a[k] ?? 0) + (b[k] ?? 0);
	out.steps_per_source = { ...a.steps_per_source, ...b.steps_per_source };
	out.steps_per_action = { ...a.steps_per_action };
	for (const [k, v] of Object.entries(b.steps_per_action ?? {})) out.steps_per_action[k] = (out.steps_per_action[k] ?? 0) + v;
	out.samples = [...(a.samples ?? []), ...(b.samples ?? [])].slice(0, 4);
	return out;
}

const result = (s) => ({
	states: s.states, transitions: s.transitions, traces_validated_against_impl: s.walks, steps_replayed: s.steps,
	steps_per_source: s.perKind, steps_per_action: s.actions, traces_cut_short_by_other_properties: s.foreign, samples: s.samples,
});
