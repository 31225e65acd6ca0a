// Drives igniteCore along the behaviours of spec/Infer.tla (C27).
import { bundle, repoRequire, resetRealm } from "../lib/bundle.mjs";
import { captureConsole, freshTag, installDom, page, uninstallDom } from "../lib/dom.mjs";
import { runGraph } from "../lib/runner.mjs";

const { createMachine, createActor, assign, setup } = repoRequire("xstate");
const { observable, makeAutoObservable, makeObservable, action, runInAction } = repoRequire("mobx");
const { configureStore, createSlice, legacy_createStore } = repoRequire("@reduxjs/toolkit");

const machine = (rng) => createMachine({
	...(rng.chance(0.5) ? { id: rng.pick(["m", "counter", "redux"]) } : {}),
	context: ({ input }) => ({ n: input?.n ?? 0 }),
	on: { INC: { actions: assign({ n: ({ context }) => context.n + 1 }) } },
	...(rng.chance(0.5) ? { initial: "a", states: { a: {}, b: {} } } : {}),
});
const reducer = (s = { n: 0 }, a) => (a.type === "INC" ? { n: s.n + 1 } : s);
const newStore = (rng) => (rng.chance(0.5) ? configureStore({ reducer }) : legacy_createStore(reducer));
const fields = (extra = {}) => ({ n: 0, inc() { this.n += 1; }, ...extra });
class Auto {
	n = 0;
	constructor() { makeAutoObservable(this); }
	inc() { this.n += 1; }
	get twice() { return this.n * 2; }
}
class Marked {
	n = 0;
	constructor() { makeObservable(this, { n: observable, inc: action }); }
	inc() { this.n += 1; }
}
const noop = () => {};
/** an object that has all but one of the members, or has one of them in the wrong type */
function partial(rng, members, extra = {}) {
	const names = Object.keys(members);
	const out = { ...extra, ...members };
	const n = rng.pick(names);
	if (rng.chance(0.5)) delete out[n];
	else out[n] = rng.pick([null, undefined, typeof members[n] === "string" ? 7 : "yes", typeof members[n] === "object" ? null : {}, 0]);
	return rng.chance(0.3) ? Object.freeze(out) : rng.chance(0.3) ? Object.create(out) : out;
}
const STORE = { getState: () => ({ n: 0 }), dispatch: noop, subscribe: () => noop };
const ACTOR = { send: noop, subscribe: () => ({ unsubscribe: noop }), getSnapshot: () => ({ context: { n: 0 } }) };
const MACHINE = { transition: noop, getInitialSnapshot: () => ({}) };
const SLICE = { name: "s", reducer, actions: {}, getInitialState: () => ({ n: 0 }) };

const junk = (rng) => rng.pick([0, 1, "", "redux", true, false, null, undefined, {}, [], new Date(0), Symbol("s"), 5n, noop, { n: 1 }, new Map()]);

let worlds = 0;
class InferWorld {
	constructor(lib, rng) {
		if (worlds++ % 80 === 79) installDom();
		this.rng = rng;
		resetRealm();
		this.prevEnv = process.env.NODE_ENV;
		process.env.NODE_ENV = rng.pick(["development", "production", "test"]);
		this.con = captureConsole();
		this.m = lib.instantiate();
		this.runs = 0;
		this.els = {};
		this.hosts = new Map();   // command -> its element
		this.seen = new Map();    // element -> the arguments of its latest render
		this.off = [];
	}
	describe() {
		return { note: this.note };
	}
	dispose() {
		for (const e of Object.values(this.els)) e.remove();
		for (const f of this.off) f();
		process.env.NODE_ENV = this.prevEnv;
		if (this.prevEnv === undefined) delete process.env.NODE_ENV;
		this.con.restore();
		resetRealm();
	}
	counted(fn) {
		const w = this;
		return this.rng.pick([
			() => { w.runs++; return fn(); },
			function () { w.runs++; return fn(); },
		]);
	}
	/** the source value of a kind; this.outside changes a live instance from outside */
	source(kind) {
		const { rng } = this;
		const live = (s, change) => { this.outside = () => change(s); return s; };
		const actor = (a, start) => { if (start) a.start(); this.off.push(() => a.stop()); return live(a, (x) => x.send({ type: "INC" })); };
		const store = (s) => live(s, (x) => x.dispatch({ type: "INC" }));
		const obs = (o) => live(o, (x) => runInAction(() => { if (rng.chance(0.5)) x.inc(); else x.n += 1; }));
		switch (kind) {
			case "machine": return machine(rng);
			case "setupMachine": return setup({ actions: { inc: assign({ n: ({ context }) => context.n + 1 }) } }).createMachine({ context: { n: 0 }, on: { INC: { actions: "inc" } } });
			case "machineWithState": return createMachine({ context: { n: 0 }, initial: "a", states: { a: { on: { INC: { target: "b", actions: "inc" } } }, b: { on: { INC: { target: "a", actions: "inc" } } } } }).provide({ actions: { inc: assign({ n: ({ context }) => context.n + 1 }) } });
			case "actor": return actor(createActor(machine(rng)), false);
			case "startedActor": return actor(createActor(machine(rng)), true);
			case "actorWithInput": return actor(createActor(machine(rng), { id: "redux", input: { n: 0 } }), rng.chance(0.5));
			case "store": return store(configureStore({ reducer }));
			case "legacyStore": return store(legacy_createStore(reducer));
			case "classStore": return store(Object.create(newStore(rng)));
			case "storeWithExtras": return store(Object.assign(newStore(rng), rng.pick([
				{ send: noop, getSnapshot: () => ({}) },
				{ transition: noop, start: noop, stop: noop },
				{ name: "s", reducer, actions: {} },
				{ n: 0, inc: noop, asyncReducers: {}, runSaga: noop, close: noop },
			])));
			case "slice": return createSlice({ name: rng.pick(["s", ""]) || "s", initialState: { n: 0 }, reducers: { inc(s) { s.n += 1; } } });
			case "sliceWithPrepare": return createSlice({ name: "s", initialState: () => ({ n: 0 }), reducers: { inc: { reducer(s, a) { s.n += a.payload; }, prepare: () => ({ payload: 1 }) } }, selectors: { n: (s) => s.n } });
			case "sliceWithoutActions": return createSlice({ name: "s", initialState: { n: 0 }, reducers: {}, extraReducers: (b) => b.addCase("INC", (s) => { s.n += 1; }) });
			case "storeFactory": return this.counted(() => configureStore({ reducer }));
			case "boundStoreFactory": return this.counted(() => newStore(rng)).bind({});
			case "functionStoreFactory": { const f = this.counted(() => newStore(rng)); return Object.assign(function makeStore() { return f(); }, rng.chance(0.5) ? { scope: "x", getState: noop } : {}); }
			case "observable": return obs(observable(fields(), {}, { autoBind: rng.chance(0.5), proxy: rng.chance(0.7) }));
			case "classObservable": return obs(new Auto());
			case "makeObservable": return obs(new Marked());
			case "observableLikeStore": return obs(observable(fields(rng.pick([{ getState() { return 1; }, dispatch() {} }, { subscribe() {}, dispatch() {} }, { getState() { return 1; }, subscribe: 1, dispatch() {} }]))));
			case "observableLikeActor": return obs(observable(fields(rng.pick([{ send() {}, subscribe() {} }, { send() {}, subscribe() {}, getSnapshot() {} }, { start() {}, stop() {}, send() {} }]))));
			case "observableLikeMachine": return obs(observable(fields(rng.pick([{ transition() {} }, { getInitialSnapshot() {} }, { transition: 1, getInitialSnapshot() {} }]))));
			case "observableLikeSlice": return obs(observable(fields(rng.pick([{ name: "s", actions: {} }, { name: "s", reducer() {} }, { name: "s", reducer() {}, actions: {} }]))));
			case "observableFactory": return this.counted(() => observable(fields()));
			case "classObservableFactory": return this.counted(() => new Auto());
			// refused
			case "primitive": return rng.pick([0, 1, "", "xstate", "source", true, Symbol("machine"), 3n, Number.NaN]);
			case "null": return null;
			case "undefined": return undefined;
			case "plainObject": return rng.pick([{}, { n: 0 }, { source: {} }, Object.create(null), { adapter: "redux" }, { inc: noop }]);
			case "array": return rng.pick([[], [1], [newStore(rng)]]);
			case "builtin": return rng.pick([new Date(0), new Map(), new Set(), /x/, new Error("x"), new (class Model { n = 0; })(), new WeakMap()]);
			case "promise": return Promise.resolve(newStore(rng));
			case "partialStore": return partial(rng, STORE);
			case "partialActor": return rng.chance(0.3) ? { ...ACTOR } : partial(rng, ACTOR, { start: noop, stop: noop });
			case "partialMachine": return partial(rng, MACHINE, { id: "m", config: {} });
			case "partialSlice": return partial(rng, SLICE);
			case "domNode": return rng.pick([page.document.createElement("div"), page.window, page.document, new page.window.EventTarget()]);
			case "factoryOfJunk": return this.counted(() => junk(rng));
			case "factoryOfPromise": return this.counted(() => Promise.resolve(newStore(rng)));
			case "throwingFactory": return this.counted(() => { throw rng.pick([new Error("boom"), "boom", undefined]); });
			case "factoryOfMachine": return this.counted(() => machine(rng));
			case "factoryOfActor": return this.counted(() => createActor(machine(rng)));
			case "factoryOfSlice": return this.counted(() => createSlice({ name: "s", initialState: { n: 0 }, reducers: {} }));
			case "factoryOfPartialStore": return this.counted(() => partial(rng, STORE));
			case "class": return rng.pick([class A {}, Auto, Marked, class Machine extends Auto { transition() {} }]);
			default: throw new Error(`no source of kind ${kind}`);
		}
	}
	bind(kind, way, lib) {
		const { m, rng } = this;
		if (kind === "nothing") return m.core.igniteCore();
		const opts = {};
		if (kind !== "noSource") opts.source = this.source(kind);
		if (way === "named") opts.adapter = lib;
		if (way === "unknownName") opts.adapter = rng.pick(["nope", "XState", "xstate ", "redux-toolkit", "__proto__", "toString", 1, {}]);
		if (way === "inferred" && rng.chance(0.3)) opts.adapter = undefined;
		if (kind === "null" && rng.chance(0.3)) return m.core.igniteCore(null);
		if (kind === "primitive" && rng.chance(0.2)) return m.core.igniteCore(rng.pick([0, 1, "x", true]));
		this.lib = lib;
		if (lib !== "none") {
			opts.states = (snap) => ({ facade: this.read(snap) });
			opts.commands = ({ actor, host }) => {
				const bump = () => this.command(actor);
				this.hosts.set(bump, host);
				return { bump };
			};
		}
		this.slice = lib === "redux" && /^slice/.test(kind) ? opts.source : null;
		const call = way === "own" ? m[lib].igniteCore : m.core.igniteCore;
		return call(opts);
	}
	read(state) {
		if (this.lib === "xstate") return state.context.n;
		if (this.slice) return state.s.n;
		return state.n;
	}
	command(actor) {
		if (this.lib === "xstate") return actor.send({ type: "INC" });
		if (this.lib === "redux") return actor.dispatch(this.slice?.actions.inc ? this.slice.actions.inc() : { type: "INC" });
		return runInAction(() => actor.inc());
	}
	event() {
		if (this.lib === "xstate") return { type: "INC" };
		if (this.lib === "redux") return this.slice?.actions.inc ? this.slice.actions.inc() : { type: "INC" };
		return { type: "inc" };
	}
	step(a, pre, post) {
		const out = [];
		const bad = (text) => out.push({ tag: "infer", text: `${post.bind.kind}/${post.bind.way}: ${a.name}(${a.args.join(", ")}): ${text}` });
		page.errors.length = 0;
		const [x, y] = a.args;
		let thrown = null;
		try {
			switch (a.name) {
				case "Bind": this.factory = this.bind(x, y, post.bind.lib); break;
				case "Create": {
					const w = this;
					this.tag ??= (() => {
						const t = freshTag("v-infer");
						const fn = function (args) { w.seen.set(w.hosts.get(args.bump), args); return `n=${w.lib ? w.read(args.state) : Object.keys(args.state).length}`; };
						this.factory(t, fn);
						return t;
					})();
					const e = page.document.createElement(this.tag);
					page.document.body.appendChild(e);
					this.els[x] = e;
					if (!this.lib) this.seen.set(e, this.seen.get(undefined));
					break;
				}
				case "Change":
					if (y === "command") this.seen.get(this.els[x]).bump();
					else if (this.lib) this.seen.get(this.els[x]).send(this.event());
					else this.seen.get(this.els[x]).send({ type: "INC" });
					break;
				case "Outside": this.outside(); break;
				default: throw new Error(`unknown action ${a.name}`);
			}
		} catch (e) {
			thrown = { e };
		}
		if (a.outcome === "throws") {
			if (!thrown) bad("was accepted");
			else if (!(thrown.e instanceof Error) || !thrown.e.message) bad(`threw ${String(thrown.e)}, not an error`);
		} else if (thrown) bad(`threw ${thrown.e?.message ?? String(thrown.e)}`);
		for (const e of page.errors) bad(`uncaught ${e?.message ?? e}`);
		const [lo, hi] = post.runs;
		if (this.runs < lo || this.runs > hi) bad(`the factory ran ${this.runs} times for ${post.made.length} elements`);
		if (out.length) return out;
		for (const e of post.made) {
			const want = `n=${post.val[e]}`;
			const shown = this.els[e].shadowRoot?.textContent;
			if (shown !== want) bad(`${e} shows ${JSON.stringify(shown)}, expected ${JSON.stringify(want)}`);
			if (this.lib && this.seen.get(this.els[e])?.facade !== post.val[e]) bad(`${e}'s facade reads ${String(this.seen.get(this.els[e])?.facade)}, expected ${post.val[e]}`);
		}
		return out;
	}
}

export async function runInfer(ctx) {
	const lib = await bundle(["index", "core", "xstate", "redux", "mobx"]);
	installDom();
	const cov = await runGraph(ctx, {
		spec: {
			module: "Infer",
			cfg: {
				constants: { Els: new Set(ctx.thorough ? ["e1", "e2", "e3"] : ["e1", "e2"]), MaxVal: 2 },
				view: "View", actionConstraint: "EmitEdge", invariants: ["TypeOK", "OnlyGood", "RefusedIsInert", "SharedAgree", "RunsBounded"], properties: ["IsolatedStay"],
			},
		},
		isInit: (s) => s.bind.kind === "none", kinds: ["igniteCore"], tags: ["infer"], walkLen: 14, random: ctx.thorough ? 200 : 600, randomLen: 8,
		world: (_k, rng) => new InferWorld(lib, rng),
	});
	uninstallDom();
	return cov;
}
