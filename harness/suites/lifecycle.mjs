// Conformance of the real library to spec/Lifecycle.tla.
import { bundle } from "../lib/bundle.mjs";
import { installDom, uninstallDom } from "../lib/dom.mjs";
import { hashSeed, makeRng } from "../lib/rng.mjs";
import { exploreGraph, simulateWalks } from "../lib/tlc.mjs";
import { coveringWalks, randomWalk } from "../lib/walks.mjs";
import { ISOLATED_KINDS, SHARED_KINDS, uncaught, World } from "./lifecycleWorld.mjs";
import { show, look } from "../lib/values.mjs";
import { inParallel } from "../lib/parallel.mjs";

const INVARIANTS = ["TypeOK", "ConnectedFresh", "NoStrayWork", "RefCount", "OpenWhileConnected", "NeverClosedWithoutCleanup", "NoSubscriptionOnClosedAdapter", "IsolatedStopped"];
const PROPS = ["ZombieFrozen", "Independent", "OutFrozen", "OneRenderPerChange"];

export const CONFIGS = {
	sharedTwo: { elems: ["e1", "e2", "e3"], facs: ["f1", "f2"], scope: "shared", cleanup: true, nv: 2, re: true },
	shared: { elems: ["e1", "e2"], facs: ["f1"], scope: "shared", cleanup: true, nv: 3, re: true },
	sharedKeep: { elems: ["e1", "e2"], facs: ["f1"], scope: "shared", cleanup: false, nv: 3, re: true },
	sharedApart: { elems: ["e1", "e2", "e3"], facs: ["f1", "f2"], scope: "shared", cleanup: true, nv: 2, re: true, apart: true },
	isolated: { elems: ["e1", "e2"], facs: ["f1"], scope: "isolated", cleanup: true, nv: 2, re: true },
	sharedBig: { elems: ["e1", "e2", "e3"], facs: ["f1", "f2"], scope: "shared", cleanup: true, nv: 3, re: true },
	sharedKeepBig: { elems: ["e1", "e2", "e3"], facs: ["f1", "f2"], scope: "shared", cleanup: false, nv: 3, re: true },
	isolatedBig: { elems: ["e1", "e2", "e3"], facs: ["f1"], scope: "isolated", cleanup: true, nv: 2, re: true },
};

const MANY = Array.from({ length: 9 }, (_, i) => `e${i + 1}`);
/** Populations too large to enumerate: random behaviours only. */
export const CROWDS = {
	sharedCrowd: { elems: MANY, facs: ["f1", "f2"], scope: "shared", cleanup: true, nv: 3, re: true, many: true },
	sharedKeepCrowd: { elems: MANY, facs: ["f1", "f2"], scope: "shared", cleanup: false, nv: 3, re: true, many: true, apart: true },
	sharedMany: { elems: Array.from({ length: 40 }, (_, i) => `e${i + 1}`), facs: ["f1", "f2"], scope: "shared", cleanup: true, nv: 3, re: false, many: true, walks: 14, depth: 200 },
	isolatedMany: { elems: Array.from({ length: 30 }, (_, i) => `e${i + 1}`), facs: ["f1"], scope: "isolated", cleanup: true, nv: 3, re: false, many: true, walks: 14, depth: 120 },
	isolatedCrowd: { elems: MANY.slice(0, 6), facs: ["f1"], scope: "isolated", cleanup: true, nv: 3, re: true, many: true },
};

const constantsOf = (c) => ({
	Elems: new Set(c.elems), Facs: new Set(c.facs), FacOf: c.many ? "<- MC_FacOfMany" : "<- MC_FacOf",
	SFac: c.apart ? "<- MC_OwnSource" : "<- MC_OneSource", SCOPE: c.scope, CLEANUP: c.cleanup, NV: c.nv, REENTRANT: c.re,
});

export async function crowdOf(name, seed, num, depth) {
	return simulateWalks({ module: "LifecycleMC", num, depth, seed, cfg: { constants: constantsOf(CROWDS[name]), actionConstraint: "Emit", invariants: INVARIANTS } });
}

export async function graphOf(name) {
	const c = CONFIGS[name];
	return exploreGraph({
		module: "LifecycleMC",
		cfg: {
			constants: constantsOf(c),
			view: "View", actionConstraint: "Emit", invariants: INVARIANTS, properties: PROPS,
		},
	});
}

const facOf = (c) => Object.fromEntries(c.elems.map((e) => [e, (c.many ? ["e4", "e8", "e12"] : ["e3"]).includes(e) && c.facs.includes("f2") ? "f2" : "f1"]));

export function flavourOf(c, kind, rng) {
	return {
		scope: c.scope, kind, elems: c.elems, facs: c.facs, facOf: facOf(c), srcOfFac: Object.fromEntries(c.facs.map((f) => [f, c.apart && f === "f2" ? "T" : "S"])), nv: c.nv, cleanup: c.cleanup,
		cleanupOpt: c.scope === "isolated" ? rng.pick([undefined, true, false]) : c.cleanup ? rng.pick([undefined, true]) : false,
		renderer: rng.pick(["jsx", "jsx", "lit"]),
		shape: rng.pick(["fn", "fn", "object", "class"]),
		dev: rng.chance(0.6), entry: rng.pick(["direct", "unified"]), explicit: rng.chance(0.4),
		where: rng.pick(["both", "node", "context"]), eager: rng.chance(0.7), scopeOnFactory: rng.chance(0.5), preStarted: rng.chance(0.5),
		inPlace: rng.chance(0.6), cls: rng.chance(0.5),
	};
}

const REENTRANT = new Set(["ChangeRemoveSelf", "ChangeRemoveOther", "ChangeConnect", "ChangeChange", "ConnectChange", "ChangeInsert", "ChangeThrowChange", "ConnectThrowChange"]);

/** Compare one executed step with the specification; yields {tag, text}. */
export function* compare(w, edge, obs, pre, post, trace) {
	const fl = w.fl;
	const isShared = fl.scope === "shared";
	const a = edge.a;
	if (obs.errors.length) yield { tag: "error", text: `unexpected error: ${obs.errors[0]}` };
	if (obs.hookMissed) yield { tag: "view", text: `element ${a.args[0]} was not rendered during ${a.name}` };
	for (const p of obs.problems) yield p;

	for (const e of fl.elems) {
		if (post.phase[e] === "none") continue;
		const host = w.el[e];
		if (!host?.shadowRoot) { yield { tag: "error", text: `${e} has no shadow root` }; continue; }
		const rec = w.record(host);
		const got = w.shown(host);
		const want = post.dom[e];
		// ---- what is on screen
		if (want === -1) {
			if (!got.blank) yield { tag: "inert", text: `${e} shows ${got.p} although it was never connected` };
		} else if (want >= 0) {
			const exp = w.expectedShown(want);
			const same = !got.blank && got.count === 1 && got.sections === 1 && got.p === exp.p && got.t === exp.t && show(got.lis) === show(exp.lis);
			if (!same) {
				const text = `${e} (${post.phase[e]}) shows ${show(got)}, expected ${show(exp)}`;
				if (post.phase[e] === "in") {
					if (post.dead[e]) yield { tag: "ended", text };
					else {
						yield { tag: "view", text };
						yield { tag: isShared ? "broadcast" : "isolate", text };
						if (trace.released.has(fl.facOf[e])) yield { tag: "revive", text };
						if (trace.left.has(e)) yield { tag: "inert", text };
					}
				} else yield { tag: "inert", text };
			} else if (got.q !== "-" && fl.kind !== "custom-raw" && !post.dead[e] && got.q !== exp.p) {
				yield { tag: "facade", text: `${e} shows facade value ${got.q} for state ${exp.p}` };
			}
		}
		// ---- how often it was rendered
		const n = rec.renders - obs.rendersBefore[e];
		if (REENTRANT.has(a.name)) {
			if (post.phase[e] === "created" || (pre.phase[e] !== "in" && post.phase[e] !== "in")) {
				if (n) yield { tag: "inert", text: `${e} rendered ${n}x while not connected` };
			}
		} else if (a.name === "Idle") {
			if (n > 1) yield { tag: "once", text: `${e} rendered ${n}x for one idle event` };
			if (n && post.phase[e] !== "in") yield { tag: "inert", text: `${e} rendered while not connected` };
		} else if (n !== a.renders[e]) {
			const text = `${e} rendered ${n}x, expected ${a.renders[e]}x`;
			if (post.phase[e] === "in" && pre.phase[e] === "in") yield { tag: "once", text };
			else if (post.phase[e] === "in") yield { tag: "once", text };
			else yield { tag: "inert", text };
			if (!isShared && a.renders[e] === 0 && e !== a.args[0]) yield { tag: "isolate", text };
		}
		// ---- commands
		if (fl.kind !== "custom-raw") {
			const epochs = 1 + (trace.releases.get(fl.facOf[e]) ?? 0);
			if (rec.commandCalls < 1 || rec.commandCalls > (isShared ? epochs : 1)) {
				yield { tag: "commands", text: `${e}: commands callback ran ${rec.commandCalls}x (adapter instances: ${epochs})` };
			}
			if (rec.args && rec.args.whoami() !== host) yield { tag: "commands", text: `${e}: command bound to another element` };
			if (rec.prevArgs && rec.args && n > 0 && !trace.releasedSince(e)) {
				if (rec.prevArgs.go !== rec.args.go) yield { tag: "commands", text: `${e}: command identity changed between renders` };
			}
		}
		// ---- isolated teardown
		if (!isShared) {
			const s = w.src[e];
			if (s.stops) {
				const exp = post.dead[e] ? 1 : 0;
				if (s.stops() !== exp) yield { tag: "teardownIso", text: `${e}: adapter stopped ${s.stops()}x, expected ${exp}` };
				if (s.opened.lateSubscribes) yield { tag: "teardownIso", text: `${e}: subscribed to its stopped adapter` };
			}
			if (s.running) {
				const exp = post.dead[e] ? 0 : 1;
				if (s.running() !== exp) yield { tag: "teardownIso", text: `${e}: ${s.running()} running actor task(s), expected ${exp}` };
				if (post.dead[e] && s.cleaned() !== 1) yield { tag: "teardownIso", text: `${e}: actor cleaned up ${s.cleaned()}x` };
			}
			const expSubs = post.sub[e] ? 1 : 0;
			if (s.subs() > expSubs) yield { tag: "teardownIso", text: `${e}: ${s.subs()} subscriptions on its source, expected at most ${expSubs}` };
		}
	}
	// ---- event delivery
	if (a.name === "Send" || a.name === "SendIgnored") {
		const key = w.srcName(a.args[0]);
		for (const k of Object.keys(w.src)) {
			if (fl.kind === "slice" && k !== key) continue; // slices share one counter
			const d = w.src[k].counter.applied - (obs.appliedBefore[k] ?? 0);
			const exp = a.name === "Send" && k === key ? 1 : 0;
			if (d !== exp) {
				const text = `event sent via ${a.args[1]} on ${a.args[0]} (${pre.phase[a.args[0]]}) reached source ${k} ${d}x, expected ${exp}x`;
				yield { tag: "send", text };
				if (exp === 0 && k === key) yield { tag: post.dead[a.args[0]] ? "ended" : "inert", text };
				if (exp === 0 && k !== key) yield { tag: "isolate", text };
			}
		}
		if (a.name === "Send" && fl.kind.startsWith("custom") && a.args[1] !== "cmd") {
			if (w.src[key].counter.last !== w.lastSent) yield { tag: "send", text: `the adapter received a different event object than the one sent via ${a.args[1]}` };
		}
	}
	if (a.name === "Idle") {
		const key = w.srcName(a.args[0]);
		for (const k of Object.keys(w.src)) {
			if (fl.kind === "slice" && k !== key) continue;
			const from = obs.receivedBefore[k] ?? 0;
			if (k === key) {
				const how = w.arrived(key, from, w.idleSent);
				if (look(w.idleSent) !== w.idleLook) yield { tag: "send", text: `the value ${show(w.idleSent)} sent via ${a.args[1]} on ${a.args[0]} was modified` };
				if (how) yield { tag: "send", text: `the value ${show(w.idleSent)} sent via ${a.args[1]} on ${a.args[0]} arrived ${how}` };
			} else if (w.src[k].counter.received.length !== from) {
				yield { tag: "send", text: `an event sent on ${a.args[0]} arrived at source ${k} too` };
				yield { tag: "isolate", text: `an event sent on ${a.args[0]} arrived at source ${k} too` };
			}
		}
	}
	if (a.effect === "warn" && !obs.warns.length) yield { tag: "inert", text: `${a.name} was dropped without a warning` };
	// ---- shared teardown
	if (isShared) {
		for (const [name, s] of Object.entries(w.src)) {
			const expSubs = fl.elems.filter((e) => w.srcName(e) === name && post.sub[e]).length;
			if (s.subs() > expSubs) yield { tag: "teardown", text: `${s.subs()} subscriptions on the source, expected at most ${expSubs}` };
			if (s.subs() === 0 && fl.elems.some((e) => w.srcName(e) === name && post.phase[e] === "in")) yield { tag: "teardown", text: `no subscription on source ${name} although an element is connected` };
			if (!s.healthy()) yield { tag: "teardown", text: "the user-owned source was stopped" };
		}
		for (const f of fl.facs) {
			const opened = w.facOpen[f];
			if (!opened) continue;
			const openNow = opened.filter((x) => x.stops === 0);
			const text = `factory ${f}: ${openNow.length} open adapter(s) with ${post.count[f]} connected element(s), stops ${show(opened.map((x) => x.stops))}`;
			if (opened.some((x) => x.stops > 1)) yield { tag: "teardown", text };
			if (openNow.length > 1) yield { tag: "teardown", text };
			if (!post.live[f] && openNow.length) yield { tag: "teardown", text };
			if (post.live[f] && post.count[f] > 0 && openNow.length !== 1) yield { tag: "teardown", text };
			if (!fl.cleanup && opened.some((x) => x.stops)) yield { tag: "teardown", text };
			if (opened.some((x) => x.lateSubscribes)) yield { tag: "revive", text: `factory ${f}: subscribed to a stopped adapter` };
		}
	}
}

class TraceInfo {
	constructor(fl) {
		this.fl = fl;
		this.released = new Set();
		this.releases = new Map();
		this.left = new Set();
		this.lastRelease = new Map();
		this.renderMark = new Map();
		this.clock = 0;
	}
	note(edge, pre, post) {
		this.clock++;
		for (const e of this.fl.elems) if (post.phase[e] === "out") this.left.add(e);
		if (this.fl.scope === "shared") {
			for (const f of this.fl.facs) {
				const n = edge.a.stops?.[f] ?? 0;
				if (n) {
					this.released.add(f);
					this.releases.set(f, (this.releases.get(f) ?? 0) + n);
					this.lastRelease.set(f, this.clock);
				}
			}
		}
	}
	/** has e's factory released its adapter since e's previous render? conservative: ever within this or the last step e was out */
	releasedSince(e) {
		return this.released.has(this.fl.facOf[e]);
	}
}

/** Replay one behaviour; returns the first relevant mismatch or null. */
/** Mismatches after which sources and elements are still where the specification has them: the replay goes on. */
const SOFT = new Set(["teardown", "teardownIso", "commands", "facade", "once"]);

export function replay(lib, graph, walk, flavour, seed, tags, stats) {
	const w = new World(lib, flavour, makeRng(seed));
	const trace = new TraceInfo(flavour);
	try {
		for (let i = 0; i < walk.length; i++) {
			const edge = walk[i];
			const pre = graph.states[edge.s];
			const post = graph.states[edge.t];
			trace.note(edge, pre, post);
			const obs = w.step(edge.a, post);
			stats.steps++;
			let foreign = false;
			for (const p of compare(w, edge, obs, pre, post, trace)) {
				if (p.tag === "error" || tags.has(p.tag)) {
					return { step: i, action: edge.a, text: p.text, tag: p.tag, values: w.vals };
				}
				if (!SOFT.has(p.tag)) foreign = true;
			}
			if (foreign) { stats.foreign++; return null; } // another property's business; the trace has diverged
		}
		return null;
	} finally {
		w.dispose();
	}
}

/** Runs the parts of a property's check side by side, one process each. */
export async function runLifecycle(ctx, opts) {
	const jobs = [];
	for (const name of opts.crowds ?? []) jobs.push({ crowds: [name], configs: [], part: "all" });
	for (const name of opts.configs) for (const part of ["full", "rest", "random"]) jobs.push({ crowds: [], configs: [name], part });
	const results = await inParallel(ctx, "lifecycle", jobs.map((j) => ({ ...opts, ...j })));
	const out = { states: 0, transitions: 0, traces_validated_against_impl: 0, steps_replayed: 0, steps_per_config_and_source: {}, steps_per_action: {}, traces_cut_short_by_other_properties: 0, instances: {}, samples: [] };
	for (const [i, r] of results.entries()) {
		if (!r) continue;
		const name = jobs[i].crowds[0] ?? jobs[i].configs[0];
		if (!out.instances[name]) {
			out.states += r.states;
			out.transitions += r.transitions;
			out.instances[name] = { states: r.states, transitions: r.transitions };
		}
		for (const k of ["traces_validated_against_impl", "steps_replayed", "traces_cut_short_by_other_properties"]) out[k] += r[k];
		for (const g of ["steps_per_config_and_source", "steps_per_action"]) for (const [k, v] of Object.entries(r[g])) out[g][k] = (out[g][k] ?? 0) + v;
		if (out.samples.length < 3) out.samples.push(...r.samples.slice(0, 1));
	}
	return out;
}

export async function lifecyclePart(ctx, { part, tags, configs, kinds, walkLen = 30, randomPerKind = 6, fullKinds, crowds = [], crowdSize = 60 }) {
	const lib = await bundle();
	const tagSet = new Set(tags);
	const stats = { steps: 0, walks: 0, foreign: 0, states: 0, transitions: 0, perKind: {}, actions: {}, samples: [] };
	installDom();
	let sinceDom = 0;
	for (const name of [...crowds, ...configs]) {
		const crowd = CROWDS[name];
		const c = crowd ?? CONFIGS[name];
		const graph = crowd ? await crowdOf(name, 1 + (hashSeed(ctx.seed, name) % 1_000_000), crowd.walks ? (ctx.tier === "thorough" ? crowd.walks * 10 : crowd.walks) : ctx.tier === "thorough" ? 2000 : crowdSize, crowd.depth ?? 80) : await graphOf(name);
		stats.states += graph.tlc.distinct;
		stats.transitions += graph.edges;
		if (part === "full" || crowd) ctx.log(`${name}: ${graph.tlc.distinct} states, ${graph.edges} transitions (TLC ${graph.tlc.seconds.toFixed(1)}s)`);
		const init = crowd ? 0 : graph.states.findIndex((s) => c.elems.every((e) => s.phase[e] === "none") && Object.values(s.src).every((v) => v === 0) && Object.values(s.live).every((l) => l === (c.scope === "shared")));
		const use = (kinds ?? (c.scope === "shared" ? SHARED_KINDS : ISOLATED_KINDS)).filter((k) => (c.scope === "shared" ? SHARED_KINDS : ISOLATED_KINDS).includes(k));
		const runOne = async (kind, walk, label) => {
			const seed = hashSeed(ctx.seed, name, kind, label);
			const fl = flavourOf(c, kind, makeRng(seed));
			stats.walks++;
			stats.perKind[`${name}/${kind}`] = (stats.perKind[`${name}/${kind}`] ?? 0) + walk.length;
			for (const e of walk) stats.actions[e.a.name] = (stats.actions[e.a.name] ?? 0) + 1;
			const bad = replay(lib, graph, walk, fl, seed, tagSet, stats);
			if (stats.samples.length < 2) stats.samples.push({ flavour: { kind, renderer: fl.renderer, dev: fl.dev }, walk: walk.slice(0, 8).map((e) => [e.a.name, ...e.a.args]) });
			if (++sinceDom > 400) { installDom(); sinceDom = 0; }
			if (stats.walks % 50 === 0) await new Promise((r) => setImmediate(r));
			if (!bad && uncaught.length) {
				const e = uncaught.splice(0)[0];
				return ctx.violation({ suite: "lifecycle", config: name, flavour: fl, seed, walk: walk.map((x) => [x.a.name, ...x.a.args]), text: `uncaught: ${e?.message ?? e}` });
			}
			if (bad) {
				ctx.violation({ suite: "lifecycle", config: name, flavour: fl, seed, step: bad.step, action: [bad.action.name, ...bad.action.args], tag: bad.tag, text: bad.text, values: bad.values, walk: walk.slice(0, bad.step + 1).map((x) => [x.a.name, ...x.a.args]) });
			}
		};
		if (crowd) {
			for (const [i, walk] of graph.walks.entries()) {
				await runOne(use[i % use.length], walk, `s${i}`);
				if (ctx.done()) return finish(stats);
			}
			continue;
		}
		// Every transition is exercised; in the quick tier the kinds share the edges between them,
		// except `fullKinds`, which each take all of them.
		const full = ctx.tier === "thorough" ? use : (fullKinds ?? [use[0]]).filter((k) => use.includes(k));
		for (const kind of part === "full" ? full : []) {
			let i = 0;
			for (const walk of coveringWalks(graph, init, makeRng(hashSeed(ctx.seed, name, kind, "cover")), { maxLen: walkLen })) {
				await runOne(kind, walk, `c${i++}`);
				if (ctx.done()) return finish(stats);
			}
		}
		const rest = use.filter((k) => !full.includes(k));
		if (rest.length && part === "rest") {
			let i = 0;
			for (const walk of coveringWalks(graph, init, makeRng(hashSeed(ctx.seed, name, "rest")), { maxLen: walkLen })) {
				await runOne(rest[i % rest.length], walk, `r${i++}`);
				if (ctx.done()) return finish(stats);
			}
		}
		const nRandom = ctx.tier === "thorough" ? randomPerKind * 20 : randomPerKind;
		for (const kind of part === "random" ? use : []) {
			const rng = makeRng(hashSeed(ctx.seed, name, kind, "random"));
			for (let i = 0; i < nRandom; i++) {
				await runOne(kind, randomWalk(graph, init, rng, 60), `x${i}`);
				if (ctx.done()) return finish(stats);
			}
		}
		await new Promise((r) => setTimeout(r, 5));
	}
	uninstallDom();
	return finish(stats);
}

function finish(stats) {
	return {
		states: stats.states, transitions: stats.transitions, traces_validated_against_impl: stats.walks,
		steps_replayed: stats.steps, steps_per_config_and_source: stats.perKind, steps_per_action: stats.actions,
		traces_cut_short_by_other_properties: stats.foreign, samples: stats.samples,
	};
}
