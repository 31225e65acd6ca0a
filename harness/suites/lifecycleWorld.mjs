// The real library, driven by actions of spec/Lifecycle.tla.
import { repoRequire, resetRealm } from "../lib/bundle.mjs";
import { captureConsole, freshTag, page } from "../lib/dom.mjs";
import { distinctValues, show, look } from "../lib/values.mjs";

export const SHARED_KINDS = ["custom", "custom-raw", "custom-mut", "xstate", "redux", "mobx", "mobx-class"];
export const ISOLATED_KINDS = ["custom", "custom-raw", "custom-mut", "machine", "redux-factory", "slice", "mobx-factory"];

const { createMachine, assign, createActor, fromCallback } = repoRequire("xstate");
const { observable, makeAutoObservable, runInAction, getObserverTree, toJS, action } = repoRequire("mobx");
const { configureStore, createSlice } = repoRequire("@reduxjs/toolkit");

/** an exception a renderer throws on purpose; libraries report it in their own ways */
export const PLANNED = "planned failure of a renderer";
export const uncaught = [];
const note = (e) => { if (!String(e?.message ?? e).includes(PLANNED)) uncaught.push(e); };
process.on("uncaughtException", note);
process.on("unhandledRejection", note);

export class World {
	/**
	 * flavour: {scope, kind, renderer:"jsx"|"lit", shape, dev, cleanup, facs:["f1",..], facOf, elems, nv, entry}
	 */
	constructor(lib, flavour, rng) {
		this.fl = flavour;
		this.rng = rng;
		resetRealm();
		this.prevEnv = process.env.NODE_ENV;
		process.env.NODE_ENV = flavour.dev ? "development" : "production";
		this.con = captureConsole();
		this.m = lib.instantiate();
		if (flavour.renderer === "lit") this.m.index.defineIgniteConfig({ renderer: "lit" });
		this.m.litRenderer;
		const raw = ["custom", "custom-raw", "custom-mut", "redux", "redux-factory", "slice"].includes(flavour.kind);
		this.vals = distinctValues(rng, flavour.nv, raw ? undefined : rng.pick(["simple", "near", "deep", "near", "falsy"]));
		this.el = {};            // elem name -> HTMLElement
		this.rec = new Map();    // HTMLElement -> per-element record
		this.hook = null;
		this.problems = [];      // unconditional monitors: [{tag, text}]
		this.setup();
	}

	dispose() {
		for (const e of Object.values(this.el)) { try { e.remove(); } catch {} }
		this.con.restore();
		process.env.NODE_ENV = this.prevEnv;
		page.document.body.replaceChildren();
		resetRealm();
	}

	// ---------------------------------------------------------------- sources
	newCounters() {
		return { applied: 0, last: undefined, received: [] };
	}

	makeCustomHolder() {
		const w = this;
		const mut = w.fl.kind === "custom-mut"; // the adapter keeps one state object and mutates it
		const holder = { value: mut ? { p: w.vals[0] } : w.vals[0], adapters: [], ...w.newCounters() };
		holder.set = (v) => {
			// (what an ended element captured stays as it was)
			if (mut && !(w.fl.scope === "isolated" && holder.adapters.some((a) => a.stops))) holder.value.p = v;
			else if (mut) holder.value = { p: v };
			else holder.value = v;
			for (const a of [...holder.adapters]) for (const l of [...a.listeners]) l(holder.value);
		};
		holder.open = (eager, scope) => {
			const a = { listeners: new Set(), stops: 0, lateSubscribes: 0, sends: [] };
			a.adapter = {
				subscribe(l) {
					if (a.stops) a.lateSubscribes++;
					a.listeners.add(l);
					if (eager) l(holder.value);
					return { unsubscribe: () => a.listeners.delete(l) };
				},
				send(ev) {
					a.sends.push(ev);
					holder.last = ev;
					if (!a.stops) holder.received.push(ev);
					if (a.stops) return;
					if (ev && ev.type === "SET" && "v" in ev) { holder.applied++; holder.set(ev.v); }
				},
				getState: () => holder.value,
				stop() { a.stops++; a.listeners.clear(); },
				...(scope ? { scope } : {}),
			};
			holder.adapters.push(a);
			return a;
		};
		return holder;
	}

	machine(counter) {
		const w = this;
		const nodes = {};
		w.vals.forEach((_, i) => { nodes[`n${i}`] = {}; });
		return createMachine({
			context: { p: w.vals[0] },
			initial: "n0",
			invoke: {
				src: fromCallback(({ self }) => {
					counter.running++;
					return () => { counter.running--; counter.cleaned++; };
				}),
			},
			states: nodes,
			on: {
				SET: w.vals.map((_, i) => ({
					guard: ({ event }) => event.i === i,
					...(w.fl.where === "context" ? {} : { target: `.n${i}` }),
					actions: [...(w.fl.where === "node" ? [] : [assign({ p: ({ event }) => event.v })]), () => { counter.applied++; }],
				})),
				IDLE: { actions: ({ event }) => { counter.received.push(event); } },
			},
		});
	}

	reducer(counter) {
		const w = this;
		return (s = w.vals[0], a) => {
			if (a.type === "SET") { counter.applied++; counter.last = a; return a.v; }
			if (a.type === "IDLE") counter.received.push(a);
			return s;
		};
	}

	mobxStore(counter, cls) {
		const w = this;
		const assignDeep = (store, v) => {
			counter.applied++;
			const old = store.p;
			if (w.fl.inPlace && Array.isArray(v) && Array.isArray(old)) old.splice(0, old.length, ...v);
			else if (w.fl.inPlace && v && old && typeof v === "object" && typeof old === "object" && !Array.isArray(v) && !Array.isArray(old)) {
				for (const k of Object.keys(old)) if (!(k in v)) delete old[k];
				for (const [k, x] of Object.entries(v)) if (show(toJS(old[k])) !== show(x)) old[k] = x;
			} else store.p = v;
			store.q = store.q + 1; // two fields per action: still one change for the view
		};
		if (cls) {
			class Store {
				p = w.vals[0];
				q = 0;
				constructor() { makeAutoObservable(this); }
				set(v) { assignDeep(this, v); }
				idle(...args) { counter.received.push({ self: this, args }); }
			}
			return w.keepStore(counter, new Store());
		}
		return w.keepStore(counter, observable({ p: w.vals[0], q: 0, set: action(function (v) { assignDeep(this, v); }), idle(...args) { counter.received.push({ self: this, args }); } }));
	}
	keepStore(counter, store) {
		counter.store = store;
		return store;
	}

	event(v) {
		const value = this.vals[v];
		switch (this.fl.kind) {
			case "xstate": case "machine": return { type: "SET", v: value, i: v };
			case "mobx": case "mobx-class": case "mobx-factory": return { type: "set", args: [value] };
			case "slice": return this.slice.actions.set(value);
			default: return { type: "SET", v: value };
		}
	}
	/** an arbitrary event value the source does not react to */
	idleEvent(via) {
		const { rng } = this;
		const extra = rng.pick([{}, { detail: { type: "SET", v: "wrong" } }, { payload: [1], meta: { a: 1 } }, { detail: "x", target: {}, bubbles: true }, { event: { type: "SET" } }]);
		switch (this.fl.kind) {
			case "mobx": case "mobx-class": case "mobx-factory":
				return { type: "idle", args: rng.pick([[], [{ a: 1 }], [1, "b", undefined, null], [[1, 2]], [new Map(), () => 1], [undefined], [0, false], [{ detail: 1 }]]) };
			case "xstate": case "machine": case "redux": case "redux-factory": case "slice":
				return rng.pick([{ type: "IDLE", ...extra }, Object.freeze({ type: "IDLE", ...extra })]);
			default: {
				const any = [{ type: "IDLE", ...extra }, "plain", 7, [1, 2], () => 0, Symbol("s"), { detail: { type: "SET" } }, Object.create(null), new Map([[1, 2]]), new page.window.Event("IDLE"), true];
				if (via === "arg") any.push(0, "", false, null, Number.NaN);
				return rng.pick(any);
			}
		}
	}
	/** did exactly this value arrive at source `key` (received[from..])? */
	arrived(key, from, ev) {
		const c = this.src[key].counter;
		const got = c.received.slice(from);
		if (got.length !== 1) return `${got.length} times`;
		switch (this.fl.kind) {
			case "mobx": case "mobx-class": case "mobx-factory": {
				const { self, args } = got[0];
				if (args.length !== ev.args.length || args.some((x, i) => !Object.is(x, ev.args[i]))) return `as a call with ${show(args)} instead of ${show(ev.args)}`;
				if (self !== c.store) return "as a call on another object";
				return null;
			}
			default: return Object.is(got[0], ev) ? null : "as another value";
		}
	}
	/** what the states callback derives: values of every sort, under awkward names too */
	derived(v) {
		const i = this.vals.findIndex((x) => show(x) === show(v));
		return {
			p: v, twice: [v], odd: i % 2 === 1, sort: typeof v, i, maybe: i === 1 ? undefined : i, none: i === 1 ? null : v, neg: i === 1 ? 0 : -0.5, word: i === 1 ? "" : "w",
			told: () => v, fixed: "fixed", toString: i, "a-b": i, 0: i, [`length`]: i, list: i === 1 ? [] : [i, v], html: `<b>${i}</b>`, nested: { a: { b: i } },
		};
	}
	/** payload shown by the renderer, out of the `state` argument */
	payload(state) {
		switch (this.fl.kind) {
			case "xstate": case "machine": return this.fl.where === "node" ? this.vals[Number(String(state.value).slice(1))] : state.context.p;
			case "mobx": case "mobx-class": case "mobx-factory": return state.p;
			case "slice": return state.s.p;
			case "custom-mut": return state.p;
			default: return state;
		}
	}

	setup() {
		const { fl, m } = this;
		this.src = {};       // source name -> {set, subs, ...}
		this.shared = null;
		this.facOpen = {};   // custom kinds: factory -> adapters opened
		const isShared = fl.scope === "shared";
		const statesCb = (snap) => this.derived(this.payload(snap));
		const commandsCb = ({ actor, emit, host }) => {
			const rec = this.record(host);
			rec.commandCalls++;
			rec.actor = actor;
			return {
				go: (v) => this.viaActor(actor, v),
				whoami: () => host,
				ping: (type, d) => emit(type, d),
			};
		};
		const common = { states: statesCb, commands: commandsCb, events: (ev) => ({ ping: ev() }) };
		const reg = {};
		let src;
		if (isShared) {
			for (const name of new Set(Object.values(fl.srcOfFac))) {
			const facs = fl.facs.filter((f) => fl.srcOfFac[f] === name);
			switch (fl.kind) {
				case "custom": case "custom-raw": case "custom-mut": {
					const h = this.makeCustomHolder();
					src = { set: (v) => h.set(this.vals[v]), subs: () => h.adapters.reduce((n, a) => n + a.listeners.size, 0), counter: h, healthy: () => true };
					for (const f of facs) {
						const opened = [];
						this.facOpen[f] = opened;
						// a second adapter beside an open one is a source of its own, as for any user whose factory makes its state
						const open = () => { const a = (opened.some((x) => !x.stops) ? this.makeCustomHolder() : h).open(fl.eager, undefined); opened.push(a); return a.adapter; };
						if (fl.scopeOnFactory) open.scope = m.index.StateScope.Shared;
						const scopeOpt = fl.scopeOnFactory ? {} : { scope: m.index.StateScope.Shared };
						reg[f] = fl.kind !== "custom-raw"
							? m.factory.createComponentFactory(open, { ...scopeOpt, cleanup: fl.cleanupOpt, states: statesCb, commands: commandsCb, events: { ping: m.index.event() } })
							: m.index.igniteElementFactory(open, { ...scopeOpt, cleanup: fl.cleanupOpt, createAdditionalArgs: (_a, host) => ({ whoami: () => host }) });
					}
					break;
				}
				case "xstate": {
					const c = { ...this.newCounters(), running: 0, cleaned: 0 };
					const actor = createActor(this.machine(c));
					if (fl.preStarted) actor.start();
					let n = 0;
					const sub = actor.subscribe.bind(actor);
					actor.subscribe = (...a) => { const s = sub(...a); n++; let on = true; return { unsubscribe: () => { if (on) { on = false; n--; } s.unsubscribe(); } }; };
					src = { set: (v) => actor.send({ type: "SET", v: this.vals[v], i: v }), subs: () => n, counter: c, healthy: () => actor.getSnapshot().status === "active" && c.running === 1 };
					for (const f of facs) reg[f] = this.core("xstate")({ ...common, source: actor, cleanup: fl.cleanupOpt });
					break;
				}
				case "redux": {
					const c = this.newCounters();
					const store = configureStore({ reducer: this.reducer(c), middleware: (g) => g({ serializableCheck: false, immutableCheck: false }) });
					let n = 0;
					const sub = store.subscribe;
					store.subscribe = (l) => { n++; const u = sub(l); let on = true; return () => { if (on) { on = false; n--; } u(); }; };
					src = { set: (v) => store.dispatch({ type: "SET", v: this.vals[v] }), subs: () => n, counter: c, healthy: () => true };
					for (const f of facs) reg[f] = this.core("redux")({ ...common, source: store, cleanup: fl.cleanupOpt });
					break;
				}
				case "mobx": case "mobx-class": {
					const c = this.newCounters();
					const store = this.mobxStore(c, fl.kind === "mobx-class");
					const tree = () => getObserverTree(store, "p").observers?.length ?? 0;
					src = { set: (v) => runInAction(() => store.set(this.vals[v])), subs: tree, counter: c, healthy: () => true };
					for (const f of facs) reg[f] = this.core("mobx")({ ...common, source: store, cleanup: fl.cleanupOpt });
					break;
				}
			}
			this.src[name] = src;
			}
		} else {
			// isolated: per-element sources appear when elements are constructed
			const pendingSource = [];
			this.takeSource = () => pendingSource.pop();
			let f0;
			switch (fl.kind) {
				case "custom": case "custom-raw": case "custom-mut": {
					const open = () => {
						const h = this.makeCustomHolder();
						const a = h.open(fl.eager, undefined);
						pendingSource.length = 0;
						pendingSource.push({ set: (v) => h.set(this.vals[v]), subs: () => a.listeners.size, counter: h, stops: () => a.stops, opened: a });
						return a.adapter;
					};
					f0 = fl.kind !== "custom-raw"
						? m.factory.createComponentFactory(open, { cleanup: fl.cleanupOpt, states: statesCb, commands: commandsCb, events: { ping: m.index.event() } })
						: m.index.igniteElementFactory(open, { cleanup: fl.cleanupOpt, createAdditionalArgs: (_a, host) => ({ whoami: () => host }) });
					break;
				}
				case "machine": {
					const counters = [];
					const machineOf = () => {
						// one machine definition for all elements; counters are per actor
						const w = this;
						const nodes = {};
						w.vals.forEach((_, i) => { nodes[`n${i}`] = {}; });
						return createMachine({
							context: () => { const c = { ...w.newCounters(), running: 0, cleaned: 0 }; counters.push(c); return { p: w.vals[0], k: counters.length - 1 }; },
							initial: "n0",
							invoke: { src: fromCallback(({ input }) => { const c = counters[input.k]; c.running++; return () => { c.running--; c.cleaned++; }; }), input: ({ context }) => ({ k: context.k }) },
							states: nodes,
							on: {
								SET: w.vals.map((_, i) => ({
									guard: ({ event }) => event.i === i,
									...(w.fl.where === "context" ? {} : { target: `.n${i}` }),
									actions: [...(w.fl.where === "node" ? [] : [assign({ p: ({ event }) => event.v })]), ({ context }) => { counters[context.k].applied++; }],
								})),
								IDLE: { actions: ({ event, context }) => { counters[context.k].received.push(event); } },
							},
						});
					};
					f0 = this.core("xstate")({ ...common, source: machineOf(), cleanup: fl.cleanupOpt });
					this.takeSource = (rec) => {
						const c = counters[rec.actor.state.context.k];
						return { set: (v) => rec.actor.send({ type: "SET", v: this.vals[v], i: v }), counter: c, running: () => c.running, cleaned: () => c.cleaned, subs: () => 0 };
					};
					break;
				}
				case "redux-factory": {
					const mk = () => {
						const c = this.newCounters();
						const store = configureStore({ reducer: this.reducer(c), middleware: (g) => g({ serializableCheck: false, immutableCheck: false }) });
						let n = 0;
						const sub = store.subscribe;
						store.subscribe = (l) => { n++; const u = sub(l); let on = true; return () => { if (on) { on = false; n--; } u(); }; };
						pendingSource.length = 0;
						pendingSource.push({ set: (v) => store.dispatch({ type: "SET", v: this.vals[v] }), subs: () => n, counter: c });
						return store;
					};
					f0 = this.core("redux")({ ...common, source: mk, cleanup: fl.cleanupOpt });
					break;
				}
				case "slice": {
					const counter = this.newCounters();
					const w = this;
					this.slice = createSlice({ name: "s", initialState: { p: w.vals[0] }, reducers: { set(state, a) { counter.applied++; state.p = a.payload; } }, extraReducers: (b) => b.addMatcher((x) => x.type === "IDLE", (_s, x) => { counter.received.push(x); }) });
					f0 = this.core("redux")({ ...common, source: this.slice, cleanup: fl.cleanupOpt });
					this.takeSource = (rec) => {
						return { set: (v) => rec.actor.dispatch(this.slice.actions.set(this.vals[v])), counter, subs: () => 0 };
					};
					break;
				}
				case "mobx-factory": {
					const mk = () => {
						const c = this.newCounters();
						const store = this.mobxStore(c, fl.cls);
						pendingSource.length = 0;
						pendingSource.push({ set: (v) => runInAction(() => store.set(this.vals[v])), subs: () => getObserverTree(store, "p").observers?.length ?? 0, counter: c });
						return store;
					};
					f0 = this.core("mobx")({ ...common, source: mk, cleanup: fl.cleanupOpt });
					break;
				}
			}
			for (const f of fl.facs) reg[f] = f0;
		}
		// tags: every element may have its own tag or share one with siblings of its factory
		this.tagOf = {};
		this.deferred = new Map();
		const tags = {};
		for (const e of fl.elems) {
			const f = fl.facOf[e];
			tags[f] ??= [];
			if (!tags[f].length || this.rng.chance(0.4)) {
				const t = freshTag();
				const renderer = this.makeRenderer();
				const define = () => reg[f](t, renderer);
				// a further tag of a factory may be registered late, when elements of that name already exist
				if (tags[f].length && this.rng.chance(0.6)) this.deferred.set(t, define);
				else define();
				tags[f].push(t);
			}
			this.tagOf[e] = this.rng.pick(tags[f]);
		}
		this.host2 = page.document.createElement("div");
		page.document.body.append(this.host2);
		this.inner = page.document.createElement("div");
		const sh = page.document.createElement("div");
		page.document.body.append(sh);
		sh.attachShadow({ mode: "open" }).append(this.inner);
	}

	core(lib) {
		const { m, fl } = this;
		if (fl.entry === "direct") return m[lib].igniteCore;
		return fl.explicit ? (o) => m.core.igniteCore({ adapter: lib, ...o }) : m.core.igniteCore;
	}

	viaActor(actor, v) {
		const value = this.vals[v];
		switch (this.fl.kind) {
			case "custom": case "custom-mut": return actor.send({ type: "SET", v: value });
			case "xstate": case "machine": return actor.send({ type: "SET", v: value, i: v });
			case "redux": case "redux-factory": return actor.dispatch({ type: "SET", v: value });
			case "slice": return actor.dispatch(this.slice.actions.set(value));
			default: return actor.set(value);
		}
	}

	// --------------------------------------------------------------- renderer
	record(host) {
		let r = this.rec.get(host);
		if (!r) {
			r = { host, renders: 0, args: null, prevArgs: null, commandCalls: 0, actor: null, badFacade: null };
			this.rec.set(host, r);
		}
		return r;
	}

	onRender(args) {
		const host = args.whoami();
		const r = this.record(host);
		r.renders++;
		r.prevArgs = r.args;
		r.args = args;
		const p = show(this.payload(args.state));
		if (!host.isConnected || !page.document.contains(rootHost(host))) {
			this.problems.push({ tag: "inert", text: `renderer invoked for a disconnected element (state ${p})` });
		}
		// While a re-entrant change is still being delivered, an element can be rendered with the state
		// it was last told about (and is rendered again right away); only the outcome is promised.
		const midNotification = /^(ChangeConnect|ChangeInsert|ChangeChange|ConnectChange|ChangeThrowChange|ConnectThrowChange)$/.test(this.current?.name)
			|| (this.post && this.fl.elems.some((e) => this.post.dead[e] && this.el[e] === host));
		if ("p" in args) {
			const want = midNotification ? {} : this.derived(this.payload(args.state));
			for (const k of Object.keys(want)) {
				const [a, b] = k === "told" ? [args[k]?.(), want[k]()] : [args[k], want[k]];
				if (show(a) !== show(b) || typeof a !== typeof b || !(k in args)) { this.problems.push({ tag: "facade", text: `render got state ${p} but the facade value "${k}" is ${show(a)}` }); break; }
			}
		} else if (this.fl.kind !== "custom-raw") {
			this.problems.push({ tag: "facade", text: "facade keys missing from the render arguments" });
		}
		const h = this.hook;
		if (h && h.host() === host && !h.done && (h.when === undefined || h.when(p))) {
			h.done = true;
			h.fn();
		}
		return p;
	}

	makeRenderer() {
		const w = this;
		const { m } = this;
		const lit = this.fl.renderer === "lit";
		const view = (args) => {
			const p = w.onRender(args);
			const payload = w.payload(args.state);
			const items = Array.isArray(payload) ? payload.map((x) => show(x)) : [];
			const facade = "p" in args ? show(args.p) : "-";
			if (lit) {
				const { html } = m.lit;
				return html`<section data-t=${typeof payload}><p>${p}</p><q>${facade}</q><ul>${items.map((i) => html`<li>${i}</li>`)}</ul><button @click=${() => args.send(w.clickEvent)}>x</button></section>`;
			}
			const { jsx, jsxs } = m.jsx;
			return jsxs("section", {
				"data-t": typeof payload,
				children: [
					jsx("p", { children: p }),
					jsx("q", { children: facade }),
					jsx("ul", { children: items.map((i) => jsx("li", { children: i })) }),
					jsx("button", { onClick: () => args.send(w.clickEvent), children: "x" }),
				],
			});
		};
		switch (this.fl.shape) {
			case "object": return { prefix: "o", render(args) { if (this.prefix !== "o") w.problems.push({ tag: "shape", text: "object renderer lost its this" }); return view(args); } };
			case "class": return class { tag = "c"; render(args) { if (this.tag !== "c") w.problems.push({ tag: "shape", text: "class renderer lost its this" }); return view(args); } };
			default: return view;
		}
	}

	shown(host) {
		const root = host.shadowRoot;
		const ps = root.querySelectorAll("p");
		if (ps.length === 0) return { blank: true };
		const lis = [...root.querySelectorAll("li")].map((x) => x.textContent);
		return { count: ps.length, sections: root.querySelectorAll("section").length, p: ps[0].textContent, q: root.querySelector("q")?.textContent, lis, t: root.querySelector("section")?.getAttribute("data-t") };
	}
	expectedShown(v) {
		const payload = this.vals[v];
		return { count: 1, sections: 1, p: show(payload), lis: Array.isArray(payload) ? payload.map((x) => show(x)) : [], t: typeof payload };
	}

	// ---------------------------------------------------------------- actions
	parent() {
		return this.rng.pick([page.document.body, this.host2, this.inner]);
	}
	mk(tag) {
		this.define(tag);
		switch (this.rng.int(4)) {
			case 3: { const t = page.document.createElement("template"); t.innerHTML = `<${tag}></${tag}>`; const h = page.document.adoptNode(t.content.cloneNode(true).firstChild); page.window.customElements.upgrade(h); return h; }
			case 0: return new (page.window.customElements.get(tag))();
			case 1: { const t = page.document.createElement("template"); t.innerHTML = `<${tag}></${tag}>`; return page.document.importNode(t.content, true).firstChild; }
			default: return page.document.createElement(tag);
		}
	}
	adopt(e, host) {
		this.el[e] = host;
		const rec = this.record(host);
		if (this.fl.scope !== "shared") this.src[e] = this.takeSource(rec);
	}
	attach(host) {
		const p = this.parent();
		switch (this.rng.int(3)) {
			case 0: p.append(host); break;
			case 1: p.insertBefore(host, p.firstChild); break;
			default: { const d = page.document.createElement("div"); d.append(host); p.append(d); }
		}
	}
	detach(host) {
		const p = host.parentNode;
		switch (this.rng.int(3)) {
			case 0: host.remove(); break;
			case 1: p.removeChild(host); break;
			default:
				if (p.localName === "div" && p !== this.host2 && p !== this.inner && p.childNodes.length === 1) { p.remove(); break; }
				p.replaceChild(page.document.createTextNode(""), host);
		}
	}
	doSend(e, via, v) {
		const host = this.el[e];
		const ev = this.event(v);
		this.lastSent = ev;
		if (via === "event" || via === "arg") this.sendVia(host, via, ev);
		else {
			const rec = this.record(host);
			if (rec.args.go) rec.args.go(v);
			else host.dispatchEvent(new page.window.CustomEvent("send", { detail: ev }));
		}
	}
	sendVia(host, via, ev) {
		if (via === "event") {
			let target = host;
			let composed = this.rng.chance(0.5);
			switch (this.rng.int(3)) {
				case 0: target = host.shadowRoot.querySelector("button") ?? host; composed = true; break;
				case 1: {
					target = host.querySelector("i");
					if (!target) { target = page.document.createElement("i"); const b = page.document.createElement("b"); b.append(target); host.append(b); }
					break;
				}
			}
			const Sort = this.rng.chance(0.2) ? class SendEvent extends page.window.CustomEvent {} : page.window.CustomEvent;
			const event = new Sort("send", { detail: ev, bubbles: target !== host || this.rng.chance(0.5), composed, cancelable: this.rng.chance(0.5) });
			// somebody else's listener cancels the default action, which sending does not have
			const cancel = this.rng.chance(0.3) ? (x) => x.preventDefault() : null;
			const where = this.rng.chance(0.5) ? page.window : host;
			if (cancel) where.addEventListener("send", cancel, true);
			target.dispatchEvent(event);
			if (cancel) where.removeEventListener("send", cancel, true);
		} else {
			const rec = this.record(host);
			if (this.rng.chance(0.5) && host.shadowRoot.querySelector("button")) {
				this.clickEvent = ev;
				host.shadowRoot.querySelector("button").click();
			} else {
				const { send } = rec.args;
				send(ev);
			}
		}
	}
	/** make e's next render (of v, if given) run fn */
	arm(e, v, fn) {
		this.hook = { host: () => this.el[e], fn, done: false, when: v === undefined ? undefined : (p) => p === show(this.vals[v]) };
	}

	define(tag) {
		const d = this.deferred.get(tag);
		this.deferred.delete(tag);
		d?.();
	}
	insertNew(x) {
		const tag = this.tagOf[x];
		if (this.deferred.has(tag)) {
			const h = page.document.createElement(tag);
			this.attach(h);
			this.define(tag); // upgrades it
			this.adopt(x, h);
		} else if (this.rng.chance(0.5)) {
			const d = page.document.createElement("div");
			this.parent().append(d);
			d.innerHTML = `<${this.tagOf[x]}></${this.tagOf[x]}>`;
			this.adopt(x, d.firstChild);
		} else {
			const h = this.mk(this.tagOf[x]);
			this.adopt(x, h);
			this.attach(h);
		}
	}

	perform(a) {
		const [x, y, z] = a.args;
		switch (a.name) {
			case "Create": this.adopt(x, this.mk(this.tagOf[x])); break;
			case "Connect": this.attach(this.el[x]); break;
			case "Insert": this.insertNew(x); break;
			case "Disconnect": this.detach(this.el[x]); break;
			case "Move": this.attach(this.el[x]); break;
			case "Change": this.src[x].set(y); break;
			case "Send": case "SendIgnored": this.doSend(x, y, z); break;
			case "ForceRender": case "ForceRenderIgnored": this.el[x].forceRender(); break;
			case "Idle": {
				this.idleSent = this.idleEvent(y);
				this.idleLook = look(this.idleSent);
				this.sendVia(this.el[x], y, this.idleSent);
				break;
			}
			case "ChangeRemoveSelf": this.arm(x, y, () => this.el[x].remove()); this.srcOf(x).set(y); break;
			case "ChangeRemoveOther": this.arm(x, z, () => this.el[y].remove()); this.srcOf(x).set(z); break;
			case "ChangeConnect": this.arm(x, z, () => this.attach(this.el[y])); this.srcOf(x).set(z); break;
			case "ChangeChange": {
				// e's renders keep changing the state for a while: v, w, v, w, ... ending in w
				let left = 1 + 2 * this.rng.pick([0, 0, 0, 1, 2, 5]);
				const chain = (at) => this.arm(x, at, () => {
					left--;
					const to = at === y ? z : y;
					if (left > 0) chain(to);
					this.srcOf(x).set(to);
				});
				chain(y);
				this.srcOf(x).set(y);
				break;
			}
			case "ChangeThrowChange": {
				this.arm(x, y, () => { throw new Error(PLANNED); });
				try { this.srcOf(x).set(y); } catch (e) { if (e?.message !== PLANNED) throw e; }
				this.srcOf(x).set(z);
				break;
			}
			case "ConnectThrowChange": {
				this.arm(x, undefined, () => { throw new Error(PLANNED); });
				this.attach(this.el[x]);
				this.srcOf(x).set(y);
				break;
			}
			case "ConnectChange": this.arm(x, undefined, () => this.srcOf(x).set(y)); this.attach(this.el[x]); break;
			case "ChangeInsert": this.arm(x, z, () => this.insertNew(y)); this.srcOf(x).set(z); break;
			case "ConnectConnect": this.arm(x, undefined, () => this.attach(this.el[y])); this.attach(this.el[x]); break;
			case "ConnectInsert": this.arm(x, undefined, () => this.insertNew(y)); this.attach(this.el[x]); break;
			case "ConnectRemoveSelf": this.arm(x, undefined, () => this.el[x].remove()); this.attach(this.el[x]); break;
			case "ConnectRemoveOther": this.arm(x, undefined, () => this.el[y].remove()); this.attach(this.el[x]); break;
			default: throw new Error(`unknown action ${a.name}`);
		}
	}
	srcName(e) {
		return this.fl.scope === "shared" ? this.fl.srcOfFac[this.fl.facOf[e]] : e;
	}
	srcOf(e) {
		return this.src[this.srcName(e)];
	}

	/** Perform a spec action; return what a user of the library could observe. */
	step(a, post) {
		this.post = post;
		this.con.take();
		this.problems = [];
		this.current = a;
		this.hook = null;
		page.errors.length = 0;
		const rendersBefore = {};
		for (const e of this.fl.elems) rendersBefore[e] = this.el[e] ? this.record(this.el[e]).renders : 0;
		const appliedBefore = {};
		const receivedBefore = {};
		for (const [k, s] of Object.entries(this.src)) { appliedBefore[k] = s.counter.applied; receivedBefore[k] = s.counter.received.length; }
		let thrown = null;
		try {
			this.perform(a);
		} catch (e) {
			thrown = e;
		}
		const hookMissed = this.hook && !this.hook.done;
		const logs = this.con.take();
		const errors = [
			...(thrown ? [thrown] : []),
			...page.errors.splice(0),
			...logs.filter((l) => l.level === "error" && /\[mobx\]|uncaught/i.test(l.text)).map((l) => new Error(l.text)),
		];
		return {
			errors: errors.map((e) => String(e?.message ?? e)).filter((t) => !t.includes(PLANNED)),
			warns: logs.filter((l) => l.level === "warn").map((l) => l.text),
			hookMissed,
			problems: this.problems,
			rendersBefore,
			appliedBefore,
			receivedBefore,
		};
	}
}

function rootHost(node) {
	let r = node.getRootNode();
	let n = node;
	while (r && r.host) { n = r.host; r = n.getRootNode(); }
	return n;
}
