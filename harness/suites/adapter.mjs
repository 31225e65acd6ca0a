// Drives the real adapters along the behaviours of spec/Adapter.tla (C13, C14).
import { bundle, repoRequire, resetRealm } from "../lib/bundle.mjs";
import { captureConsole, installDom, page, uninstallDom } from "../lib/dom.mjs";
import { inParallel } from "../lib/parallel.mjs";
import { mergeCoverage, runGraph } from "../lib/runner.mjs";
import { distinctValues, show } from "../lib/values.mjs";

const { createMachine, assign, createActor, fromCallback } = repoRequire("xstate");
const { observable, makeAutoObservable, action, runInAction, toJS, getObserverTree } = repoRequire("mobx");
const { configureStore, createSlice } = repoRequire("@reduxjs/toolkit");

const GROUPS = {
	shared: { kinds: ["xstate", "redux", "mobx", "mobx-class"], owned: false, fresh: false },
	machine: { kinds: ["machine"], owned: true, fresh: true },
	finalShared: { kinds: ["xstate-final"], owned: false, fresh: false, final: true },
	finalMachine: { kinds: ["machine-final"], owned: true, fresh: true, final: true },
	factory: { kinds: ["redux-factory", "slice", "mobx-factory", "mobx-class-factory"], owned: false, fresh: true },
};

class AdapterWorld {
	constructor(lib, kind, rng, nv, group) {
		this.kind = kind;
		this.rng = rng;
		this.group = group;
		resetRealm();
		this.con = captureConsole();
		this.m = lib.instantiate();
		this.vals = distinctValues(rng, nv, /mobx|machine|xstate/.test(kind) ? undefined : rng.pick(["falsy", "near", "deep", "simple"]));
		this.names = new Map(this.vals.map((v, i) => [show(v), i]));
		this.sources = [];
		this.inPlace = rng.chance(0.5);
		// one function for all subscriptions: they still count one by one
		this.sameFn = rng.chance(0.2);
		this.got = new Map();
		this.kept = [];
		this.late = [];
		this.subs = new Map();      // listener -> {handle, on}
		this.stale = new Map();     // listener -> finished handles
		this.fns = new Map();
		this.old = [];
		this.make();
		this.adapter = this.factory();
		this.con.take();
	}
	describe() {
		return { values: this.vals, inPlace: this.inPlace };
	}
	dispose() {
		this.witnessOff?.();
		this.con.restore();
		resetRealm();
	}
	// ------------------------------------------------------------- sources
	make() {
		const { m, kind, vals } = this;
		const base = { reducers: 0 };
		const track = (s) => { this.sources.push(s); return s; };
		const reducer = (s = vals[0], a) => (a.type === "SET" ? a.v : s);
		const mobxStore = (cls) => {
			const w = this;
			const put = (store, v) => {
				const old = store.p;
				if (w.inPlace && Array.isArray(v) && Array.isArray(old)) old.splice(0, old.length, ...v);
				else if (w.inPlace && v && old && typeof v === "object" && typeof old === "object" && !Array.isArray(v) && !Array.isArray(old)) {
					for (const k of Object.keys(old)) if (!(k in v)) delete old[k];
					for (const [k, x] of Object.entries(v)) if (show(toJS(old[k])) !== show(x)) old[k] = x;
				} else store.p = v;
				store.q += 1;
			};
			if (cls) {
				class Store {
					p = vals[0];
					q = 0;
					constructor() { makeAutoObservable(this); }
					get twice() { return [this.p]; }
					set(v) { put(this, v); }
					pair(zero, v) { if (zero === 0 && arguments.length === 2) put(this, v); }
					idle() { if (arguments.length) throw new Error("idle was given arguments"); }
				}
				return new Store();
			}
			return observable({ p: vals[0], q: 0, set: action(function (v) { put(this, v); }), pair: action(function (zero, v) { if (zero === 0) put(this, v); }), idle: action(() => {}) });
		};
		const mobxSource = (store) => ({
			set: (v) => (this.rng.chance(0.5) ? store.set(structuredClone(vals[v])) : runInAction(() => { store.set(structuredClone(vals[v])); })),
			read: () => toJS(store.p), alive: () => true,
			observers: () => (getObserverTree(store, "p").observers ?? []).length,
		});
		// what a state is: context, state node, one of several regions, or both context and node
		this.where = this.rng.pick(["context", "node", "both", ...(kind.endsWith("-final") ? [] : ["region"])]);
		const indexOf = (sn) => (this.where === "context" ? -1 : Number(/n(\d+)$/.exec(this.where === "region" ? sn.value.a : sn.value)?.[1]));
		const valueOf = (sn) => (this.where === "context" || this.where === "both" ? sn.context.p : vals[indexOf(sn)]);
		this.ofMachine = (st) => {
			const v = valueOf({ value: st.value, context: { p: st.p } });
			return show(v) === show(valueOf(st)) && (this.where !== "both" || show(vals[indexOf(st)]) === show(v)) ? v : { mismatch: [st.p, st.context.p, st.value] };
		};
		const xSource = (actor, c) => ({ set: (v) => actor.send({ type: "SET", v: vals[v] }), finish: (v) => actor.send({ type: "FIN", v: vals[v] }), read: () => valueOf(actor.getSnapshot()), alive: () => c.running === 1, ended: () => c.running === 0 && c.cleaned === 1, actor });
		const machine = (c) => {
			const { where } = this;
			const actions = where === "context" || where === "both" ? [assign({ p: ({ event }) => event.v })] : [];
			const common = {
				context: () => { c.opened++; return { p: vals[0] }; },
				invoke: { src: fromCallback(({ sendBack }) => { c.running++; c.sendBack = sendBack; return () => { c.running--; c.cleaned++; }; }) },
			};
			if (where === "context") return createMachine({ ...common, initial: "on", states: { on: { on: { SET: { actions }, IDLE: {}, FIN: { target: "end", actions } } }, end: { type: "final" } } });
			const to = (prefix) => vals.map((x, i) => ({ guard: ({ event }) => show(event.v) === show(x), target: `.${prefix}n${i}`, actions }));
			const nodes = Object.fromEntries(vals.map((_, i) => [`n${i}`, {}]));
			const on = { SET: to(""), IDLE: {} };
			if (where === "region") return createMachine({ ...common, type: "parallel", states: { a: { initial: "n0", states: nodes, on }, b: { initial: "x", states: { x: {} } } } });
			const ends = Object.fromEntries(vals.map((_, i) => [`end-n${i}`, { type: "final" }]));
			return createMachine({ ...common, initial: "n0", states: { ...nodes, ...ends }, on: { ...on, FIN: to("end-") } });
		};
		void base;
		switch (kind) {
			case "xstate": case "xstate-final": {
				const c = { running: 0, cleaned: 0, opened: 0 };
				const actor = createActor(machine(c));
				if (this.rng.chance(0.5)) actor.start();
				this.factory = m.xstateAdapter.default(actor);
				track(xSource(actor, c));
				this.witness(() => m.xstateAdapter.default(actor)());
				break;
			}
			case "machine": case "machine-final": {
				const c = { running: 0, cleaned: 0, opened: 0 };
				const f = m.xstateAdapter.default(machine(c));
				this.factory = Object.assign(() => {
					c.running = 0; c.cleaned = 0;
					const a = f();
					const cmd = f.resolveCommandActor(a);
					track({ set: (v) => (this.rng.chance(0.5) ? cmd.send : c.sendBack)({ type: "SET", v: vals[v] }), finish: (v) => cmd.send({ type: "FIN", v: vals[v] }), read: () => (this.looked = valueOf(cmd.state)), alive: () => c.running === 1, ended: () => c.running === 0 && c.cleaned === 1 });
					return a;
				}, { real: f });
				break;
			}
			case "redux": {
				const store = configureStore({ reducer, middleware: (g) => g({ serializableCheck: false }) });
				this.factory = m.reduxAdapter.default(store);
				track({ set: (v) => store.dispatch({ type: "SET", v: vals[v] }), read: () => store.getState(), alive: () => true });
				this.witness(() => m.reduxAdapter.default(store)());
				break;
			}
			case "redux-factory":
				this.factory = m.reduxAdapter.default(() => {
					const store = configureStore({ reducer });
					track({ set: (v) => store.dispatch({ type: "SET", v: vals[v] }), read: () => store.getState(), alive: () => true });
					return store;
				});
				break;
			case "slice": {
				this.slice = createSlice({ name: "s", initialState: { p: vals[0] }, reducers: { set(state, a) { state.p = a.payload; }, idle() {} } });
				const f = m.reduxAdapter.default(this.slice);
				this.factory = Object.assign(() => {
					const a = f();
					const actor = f.resolveCommandActor(a);
					track({ set: (v) => actor.dispatch(this.slice.actions.set(vals[v])), read: () => actor.getState().s.p, alive: () => true });
					return a;
				}, { real: f });
				break;
			}
			case "mobx": case "mobx-class": {
				const store = mobxStore(kind === "mobx-class");
				this.factory = m.mobxAdapter.default(store);
				track(mobxSource(store));
				this.witness(() => m.mobxAdapter.default(store)());
				break;
			}
			case "mobx-factory": case "mobx-class-factory":
				this.factory = m.mobxAdapter.default(() => {
					const store = mobxStore(kind === "mobx-class-factory");
					track(mobxSource(store));
					return store;
				});
				break;
		}
	}
	/** somebody else's adapter on the same source */
	witness(open) {
		if (this.rng.chance(0.3)) return;
		const a = open();
		this.wGot = [];
		const s = a.subscribe((st) => this.wGot.push(this.name(st)));
		this.witnessOff = () => s.unsubscribe();
		this.wAdapter = a;
		this.wGot.length = 0;
	}
	get source() {
		return this.sources[this.sources.length - 1];
	}
	payload(st) {
		switch (this.kind.replace("-final", "")) {
			case "xstate": case "machine": return this.ofMachine(st);
			case "redux": case "redux-factory": return st;
			case "slice": return st.s.p;
			default: return st.p;
		}
	}
	name(st) {
		const k = show(this.payload(st));
		return this.names.has(k) ? this.names.get(k) : `? ${k.slice(0, 80)}`;
	}
	event(v) {
		const value = structuredClone(this.vals[v]);
		switch (this.kind.replace("-final", "")) {
			case "xstate": case "machine": case "redux": case "redux-factory": return { type: "SET", v: value };
			case "slice": return this.slice.actions.set(value);
			default: return this.rng.pick([
				() => ({ type: "set", args: [value] }),
				() => ({ type: "set", args: [value, "more"] }),
				() => ({ type: "pair", args: [0, value] }),
			])();
		}
	}
	idleEvent() {
		switch (this.kind.replace("-final", "")) {
			case "xstate": case "machine": return { type: this.rng.pick(["IDLE", "NOPE"]) };
			case "redux": case "redux-factory": return { type: "nope" };
			case "slice": return this.slice.actions.idle();
			default: return this.rng.pick([{ type: "idle" }, { type: "idle", args: [] }, { type: "idle", args: undefined }, { type: "nope" }, { type: "q" }]);
		}
	}
	// ------------------------------------------------------------ listeners
	fn(l) {
		if (this.sameFn) {
			return (this.oneFn ??= (st) => {
				const v = this.name(st);
				this.pool.push(v);
				if (![...this.subs.values()].some((s) => s.on)) this.late.push(`the listener was called with ${v} although it is not subscribed`);
				const h = this.hook;
				if (h && !h.done) { h.done = true; h.fn(); }
			});
		}
		// the same function is often used again for a later subscription
		if (!this.fns.has(l) || this.rng.chance(0.4)) this.fns.set(l, {});
		const box = this.fns.get(l);
		box.call ??= (st) => {
			const v = this.name(st);
			const me = this.subs.get(l);
			if (!me?.on) this.late.push(`${l} was called with ${v} although it is not subscribed`);
			this.got.get(l).push(v);
			this.kept.push([st, show(this.payload(st)), l]);
			if (this.kept.length > 12) this.kept.shift();
			const h = this.hook;
			if (h && h.l === l && !h.done) { h.done = true; h.fn(); }
		};
		return box.call;
	}
	subscribe(l) {
		const me = { on: true, handle: null };
		this.subs.set(l, me);
		me.handle = this.adapter.subscribe(this.fn(l));
	}
	unsubscribe(l) {
		const me = this.subs.get(l);
		me.handle.unsubscribe();
		me.on = false;
		this.keepStale(l, me.handle);
	}
	keepStale(l, handle) {
		if (!handle) return;
		if (!this.stale.has(l)) this.stale.set(l, []);
		this.stale.get(l).push(handle);
	}
	stop() {
		this.adapter.stop();
		for (const [l, me] of this.subs) { if (me.on && me.handle) this.keepStale(l, me.handle); me.on = false; }
	}

	perform(a) {
		const [x, y, z] = a.args;
		const arm = (l, fn) => { this.hook = { l, fn, done: false }; };
		switch (a.name) {
			case "Subscribe": return this.subscribe(x);
			case "SubscribeStopped": { this.subs.set(x, { on: false }); return this.adapter.subscribe(this.fn(x)); }
			case "Unsub": return this.unsubscribe(x);
			case "UnsubAgain": return (this.stale.get(x) ?? []).forEach((h) => h.unsubscribe());
			case "Change": return this.change(x);
			case "Finish": return this.source.finish(x);
			case "Both": return this.kind.startsWith("mobx") && this.rng.chance(0.5) ? runInAction(() => { this.change(x); this.change(y); }) : (this.change(x), this.change(y));
			case "ChangeChange": arm(x, () => this.move(z)); return this.move(y);
			case "SubscribeChange": arm(x, () => this.move(y)); return this.subscribe(x);
			case "Send": case "SendStopped": case "SendOver": return this.adapter.send(this.event(x));
			case "Idle": return this.adapter.send(this.idleEvent());
			case "Stop": case "StopAgain": return this.stop();
			case "Ask": if (this.factory() !== this.adapter) throw new Error("the factory gave another adapter although its own is in use"); return;
			case "StopOld": return this.old.forEach((o) => o.stop());
			case "Reopen": this.old.push(this.adapter); this.adapter = this.factory(); return;
			case "ChangeUnsub": arm(x, () => this.unsubscribe(y)); return this.move(z);
			case "ChangeSubscribe": arm(x, () => this.subscribe(y)); return this.move(z);
			case "ChangeStop": arm(x, () => this.stop()); return this.move(y);
			case "SubscribeSubscribe": arm(x, () => this.subscribe(y)); return this.subscribe(x);
			case "SubscribeUnsub": arm(x, () => this.unsubscribe(y)); return this.subscribe(x);
			case "SubscribeStop": arm(x, () => this.stop()); return this.subscribe(x);
			default: throw new Error(`unknown action ${a.name}`);
		}
	}
	/** the application changes the source, perhaps through what commands are given */
	change(v) {
		const f = this.factory.real ?? this.factory;
		if (this.stopped || this.rng.chance(0.6)) return this.source.set(v);
		const actor = f.resolveCommandActor(this.adapter);
		if (this.kind.startsWith("mobx")) return actor.set(structuredClone(this.vals[v]));
		return (actor.send ?? actor.dispatch)(this.event(v));
	}
	move(v) {
		return this.rng.chance(0.5) ? this.change(v) : this.adapter.send(this.event(v));
	}

	step(a, pre, post) {
		const out = [];
		const stopTag = pre.stopped || post.stopped ? "stop" : "deliver";
		const bad = (tag, text) => out.push({ tag, text: `${this.kind}: ${a.name}(${a.args.join(", ")}): ${text}` });
		for (const l of ["l1", "l2", "l3", "l4"]) this.got.set(l, []);
		this.late = [];
		this.pool = [];
		this.hook = null;
		this.stopped = pre.stopped;
		if (this.wGot) this.wGot.length = 0;
		this.con.take();
		page.errors.length = 0;
		let thrown = null;
		try {
			this.perform(a);
		} catch (e) {
			thrown = e;
		}
		const logs = this.con.take();
		const warned = logs.some((l) => l.level === "warn");
		const mobxErr = logs.find((l) => l.level === "error" && /mobx/i.test(l.text));
		if (a.effect === "refused") {
			if (!thrown && !warned) bad("stop", "a stopped adapter accepted a subscription silently");
			thrown = null;
		}
		if (thrown) bad(a.name === "Ask" && this.old.length ? "stop" : stopTag, `threw ${thrown.message ?? thrown}`);
		if (mobxErr) bad(stopTag, `reported ${mobxErr.text.slice(0, 120)}`);
		if (a.effect === "warn" && !warned) bad("stop", "dropped without a warning");
		if (this.hook && !this.hook.done) bad("deliver", `${this.hook.l} was not told`);
		for (const t of this.late) bad(pre.stopped || post.stopped ? "stop" : "deliver", t);
		if (this.sameFn) {
			// only the total can be observed; with a hook it is anybody's delivery that came first
			const sets = Object.values(a.got);
			const total = (pick) => sets.reduce((n, s) => n + pick(...s.map((d) => d.length)), 0);
			const n = this.pool.length;
			const least = total(Math.min) - (this.hook ? 1 : 0), most = total(Math.max) + (this.hook ? 1 : 0);
			if (n < least || n > most) bad(stopTag, `the function subscribed for all was called ${n} times, expected ${least} to ${most}`);
			const fit = new Set(sets.flat(2));
			if (this.pool.some((v) => !fit.has(v))) bad(stopTag, `the function subscribed for all was told ${show(this.pool)}`);
		} else for (const [l, allowed] of Object.entries(a.got)) {
			const got = this.got.get(l);
			if (!allowed.some((s) => show(s) === show(got))) bad(stopTag, `${l} was told ${show(got)}, expected ${allowed.map(show).join(" or ")}`);
		}
		if (this.wGot) {
			const moved = post.src !== pre.src ? [post.src] : [];
			const nested = a.name === "Both" || a.name === "ChangeChange";
			const ok = show(this.wGot) === show(moved) || (nested && this.wGot.at(-1) === post.src && this.wGot.length < 4) || (a.name === "Idle" && show(this.wGot) === show([post.src]));
			if (!ok) bad(stopTag, `another adapter's listener on the same source was told ${show(this.wGot)}, expected ${show(moved)}`);
			if (this.name(this.wAdapter.getState()) !== post.src) bad(stopTag, "another adapter on the same source reads a different state");
		}
		// ---- the state everybody can read
		const want = post.stopped ? post.frozen[post.gen - 1] : post.src;
		// looking is not without effect on some adapters, so it does not happen every time
		const read = this.rng.chance(0.5) ? this.name(this.adapter.getState()) : want;
		if (read !== want) bad(post.stopped ? "stop" : "deliver", `getState is ${read}, expected ${want}`);
		if (!post.stopped && this.rng.chance(0.4)) {
			const f = this.factory.real ?? this.factory;
			const raw = f.resolveStateSnapshot(this.adapter);
			const snap = this.name(/xstate|machine/.test(this.kind) ? { p: raw.context.p, context: raw.context, value: raw.value } : raw);
			if (snap !== post.src) bad("deliver", `the facade snapshot is ${snap}, expected ${post.src}`);
		}
		if (!(this.group.owned && post.stopped)) {
			const now = this.rng.chance(0.5) ? show(this.source.read()) : show(this.vals[post.src]);
			if (now !== show(this.vals[post.src])) bad(stopTag, `the source holds ${now.slice(0, 60)}, expected value ${post.src}`);
			if (!post.over && !this.source.alive()) bad(stopTag, "the source was stopped");
		} else if (this.source.ended && !this.source.ended()) bad("stop", "the adapter's own actor is still running");
		this.old.forEach((o, i) => {
			const r = this.name(o.getState());
			if (r !== post.frozen[i]) bad("stop", `the adapter stopped in state ${post.frozen[i]} now reads ${r}`);
		});
		for (const [st, shown, l] of this.kept) {
			if (show(this.payload(st)) !== shown) { bad("deliver", `a state delivered to ${l} earlier changed afterwards`); break; }
		}
		return out;
	}
}

export async function runAdapter(ctx, { tags }) {
	const jobs = [];
	for (const [name, g] of Object.entries(GROUPS)) {
		if (name === "shared") for (const kind of g.kinds) jobs.push({ tags, name, kinds: [kind] });
		else jobs.push({ tags, name, kinds: g.kinds });
	}
	return (await inParallel(ctx, "adapter", jobs)).reduce(mergeCoverage, {});
}

export async function adapterPart(ctx, { tags, name, kinds }) {
	const lib = await bundle();
	installDom();
	const g = GROUPS[name];
	const nv = ctx.thorough ? 3 : 2;
	const cov = await runGraph(ctx, {
		spec: {
			module: "Adapter",
			cfg: {
				constants: { Ls: new Set(["l1", "l2", "l3"]), NV: nv, GENS: 3, OWNED: g.owned, FRESH: g.fresh, FINAL: Boolean(g.final), NEST: !g.final },
				view: "View", actionConstraint: "Emit", invariants: ["TypeOK", "StoppedSilent"], properties: ["FrozenStays", "Told", "ToldLast", "UnsubscribedSilent"],
			},
			heap: "2g",
		},
		isInit: (s) => s.gen === 1 && s.src === 0 && !s.stopped && !s.subs.length && !s.stale.length && !s.over,
		kinds, tags, walkLen: 35, random: 10,
		share: true,
		world: (kind, rng) => new AdapterWorld(lib, kind, rng, nv, g),
	});
	uninstallDom();
	return cov;
}
