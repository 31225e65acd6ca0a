// Drives emit along the behaviours of spec/Emit.tla (C12).
import { bundle, repoRequire, resetRealm } from "../lib/bundle.mjs";
import { captureConsole, freshTag, installDom, page, uninstallDom } from "../lib/dom.mjs";
import { mergeCoverage, runGraph } from "../lib/runner.mjs";
import { distinctValues, show, look } from "../lib/values.mjs";

const { createMachine, createActor, assign } = repoRequire("xstate");
const { observable } = repoRequire("mobx");
const { configureStore, createSlice } = repoRequire("@reduxjs/toolkit");

const DECLARED = ["changed", "counter:incremented", "item-added", "constructor", "valueOf", "camelCase", "UPPER", "click", "x y", "ü", "__proto__", "submit"];
const UNDECLARED = ["toString", "hasOwnProperty", "nope", "changed ", "Changed", "isPrototypeOf", "1", "item-remove", "propertyIsEnumerable"];

let worlds = 0;
class EmitWorld {
	constructor(lib, kind, rng, { dev, second, same }) {
		if (worlds++ % 60 === 59) installDom();
		this.kind = kind;
		this.rng = rng;
		this.prevEnv = process.env.NODE_ENV;
		process.env.NODE_ENV = dev ? "development" : rng.pick(["production"]);
		resetRealm();
		this.con = captureConsole();
		this.m = lib.instantiate();
		const [p, q, r] = rng.shuffle(DECLARED);
		const [x, y] = rng.shuffle(UNDECLARED);
		this.types = { p, q, r: rng.chance(0.5) ? r : y, x };
		this.second = second;
		this.emits = new Map();   // element -> the emit helpers its commands callbacks got
		this.log = [];
		this.nodes = { body: page.document.body, document: page.document };
		this.nodes.div = page.document.createElement("div");
		const hostTag = freshTag("v-plain");
		page.window.customElements.define(hostTag, class extends page.window.HTMLElement {});
		this.nodes.host = page.document.createElement(hostTag);
		this.nodes.shadow = this.nodes.host.attachShadow({ mode: rng.pick(["open", "closed"]) });
		const tags = [this.component(["p", "q"], kind), this.component(second.length ? second : null, rng.pick(["redux", "mobx", "machine", "actor", "slice"]))];
		// further elements of the same components, created before and after, in and outside the document
		const crowd = (n) => {
			for (let i = 0; i < n; i++) {
				const b = (this.nodes[`bystander${Object.keys(this.nodes).length}`] = page.document.createElement(rng.pick(tags)));
				if (rng.chance(0.7)) page.document.body.append(b);
			}
		};
		crowd(rng.pick([0, 0, 1, 3]));
		for (const e of rng.shuffle(["e1", "e2", "e3"])) this.nodes[e] = page.document.createElement(tags[e === "e2" && !same ? 1 : 0]);
		crowd(rng.pick([0, 0, 1]));
		this.off = [];
		for (const [n, node] of Object.entries(this.nodes)) for (const t of new Set(Object.values(this.types))) {
			const f = (ev) => this.seen(n, ev);
			const opts = rng.chance(0.3);
			node.addEventListener(t, f, opts);
			this.off.push(() => node.removeEventListener(t, f, opts));
		}
		this.con.take();
	}
	describe() {
		return { types: this.types };
	}
	dispose() {
		for (const f of this.off) f();
		for (const n of Object.keys(this.nodes)) if (n !== "body" && n !== "document" && n !== "shadow") this.nodes[n].remove();
		process.env.NODE_ENV = this.prevEnv;
		if (this.prevEnv === undefined) delete process.env.NODE_ENV;
		this.con.restore();
		resetRealm();
	}
	component(declared, kind) {
		const { m, rng } = this;
		const tag = freshTag("v-emit");
		const events = declared && ((event) => {
			const o = rng.chance(0.3) ? Object.create(null) : {};
			for (const d of declared) Object.defineProperty(o, this.types[d], { value: event(), enumerable: true, configurable: true, writable: true });
			return o;
		});
		const commands = ({ emit, host, actor }) => {
			void actor;
			if (!this.emits.has(host)) this.emits.set(host, []);
			const fire = (type, ...detail) => emit(type, ...detail);
			this.emits.get(host).push({ emit }, { emit: fire });
			return { fire };
		};
		const opts = { commands, ...(events ? { events } : {}) };
		switch (kind) {
			case "redux": opts.source = configureStore({ reducer: (s = { n: 0 }) => s }); break;
			case "redux-factory": opts.source = () => configureStore({ reducer: (s = { n: 0 }) => s }); break;
			case "slice": opts.source = createSlice({ name: "s", initialState: { n: 0 }, reducers: {} }); break;
			case "mobx": opts.source = observable({ n: 0 }); break;
			case "machine": opts.source = createMachine({ context: { n: 0 }, on: { INC: { actions: assign({ n: ({ context }) => context.n + 1 }) } } }); break;
			case "actor": opts.source = createActor(createMachine({ context: { n: 0 } })).start(); break;
			default: throw new Error(kind);
		}
		this.args ??= new Map();
		const { args } = this;
		m.core.igniteCore(opts)(tag, function render(a) { args.set(a.fire, a); return "view"; });
		return tag;
	}
	seen(n, ev) {
		this.log.push({ n, ev, detail: ev.detail, type: ev.type, ok: ev instanceof page.window.CustomEvent && ev.bubbles && ev.composed });
		const h = this.hook;
		if (h && !h.done && h.type === ev.type) { h.done = true; h.fn(); }
	}
	emit(e, t, detail) {
		const host = this.nodes[e];
		// any emit helper this element ever got, the first and the latest included
		const { emit } = this.rng.pick(this.emits.get(host));
		return detail === undefined && this.rng.chance(0.5) ? emit(this.types[t]) : emit(this.types[t], detail);
	}
	detail() {
		const rng = this.rng;
		return rng.pick([undefined, null, 0, false, "", () => 1, Symbol("s"), new Error("x"), this.nodes.div, distinctValues(rng, 1)[0], Object.freeze({ a: 1 }), { a: 1, b: { c: [1] } }, [1, { a: 2 }], new Map([[1, {}]]), Object.seal({ a: 1 }), Object.create(null), new Date(0), new (class Item { x = 1; })()]);
	}
	step(a, pre, post) {
		const out = [];
		const bad = (text) => out.push({ tag: "emit", text: `${this.kind}: ${a.name}(${a.args.join(", ")}) ${show(this.types)}: ${text}` });
		this.log = [];
		this.hook = null;
		this.con.take();
		page.errors.length = 0;
		const [x, y, z, u] = a.args;
		const d1 = this.detail();
		const d2 = this.detail();
		const looks = [look(d1), look(d2)];
		let thrown = null;
		try {
			switch (a.name) {
				case "Place": this.nodes[y].appendChild(this.nodes[x]); break;
				case "Remove": this.nodes[x].remove(); break;
				case "Emit": this.emit(x, y, d1); break;
				case "EmitEmit": this.hook = { type: this.types[y], fn: () => this.emit(z, u, d2) }; this.emit(x, y, d1); break;
				case "EmitRemove": this.hook = { type: this.types[y], fn: () => this.nodes[x].remove() }; this.emit(x, y, d1); break;
				default: throw new Error(`unknown action ${a.name}`);
			}
		} catch (e) {
			thrown = e;
		}
		if (a.effect === "throws" ? !(thrown instanceof Error) : thrown) bad(thrown ? `threw ${thrown.message ?? thrown}` : "did not throw");
		for (const e of page.errors) bad(`uncaught ${e?.message ?? e}`);
		const expect = [[this.types[y], a.seen[0] ?? [], d1]];
		if (a.name === "EmitEmit") expect.push([this.types[u], a.seen[1], d2]);
		for (const [type, nodes, detail] of a.name.startsWith("Emit") ? expect : []) {
			const got = this.log.filter((l) => l.type === type);
			if (show(got.map((l) => l.n).sort()) !== show([...nodes].sort())) bad(`"${type}" was seen by ${show(got.map((l) => l.n))}, expected ${show(nodes)}`);
			if (new Set(got.map((l) => l.ev)).size > 1) bad(`"${type}" was dispatched more than once`);
			const want = detail === undefined ? null : detail;
			for (const l of got) {
				if (!Object.is(l.detail, want)) { bad(`${l.n} got the detail ${String(l.detail)}`); break; }
				if (!l.ok) { bad("the event is not a bubbling, composed CustomEvent"); break; }
			}
		}
		if (look(d1) !== looks[0] || look(d2) !== looks[1]) bad("a detail was modified");
		const rest = this.log.filter((l) => !expect.some(([t]) => t === l.type));
		if (rest.length) bad(`${rest[0].n} saw an unexpected "${rest[0].type}"`);
		return out;
	}
}

export async function runEmit(ctx) {
	const lib = await bundle(["index", "core"]);
	installDom();
	let cov = {};
	for (const [dev, second, same] of [[true, ["q"]], [true, ["p", "q"], true], [true, []], [false, ["q"]], [false, ["p", "q"], true]]) {
		const c = await runGraph(ctx, {
			spec: {
				module: "Emit",
				cfg: {
					constants: { Els: new Set(ctx.thorough ? ["e1", "e2", "e3"] : ["e1", "e2"]), Second: new Set(same ? [] : ["e2"]), Decl1: new Set(["p", "q"]), Decl2: new Set(second), Types: new Set(["p", "q", "r", "x"]), DEV: dev },
					view: "View", actionConstraint: "EmitEdge", invariants: ["Acyclic"], properties: ["SeenOnce", "OnTheElement", "DeclaredOnly", "NeverRefusedInProduction"],
				},
			},
			isInit: (s) => Object.values(s.parent).filter((p) => p !== "none").length === 2,
			kinds: ["redux", "machine", "mobx", "actor", "slice", "redux-factory"], tags: ["emit"], walkLen: 50, random: 10,
			world: (kind, rng) => new EmitWorld(lib, kind, rng, { dev, second, same }),
		});
		cov = mergeCoverage(cov, c);
		if (ctx.done()) break;
	}
	uninstallDom();
	return cov;
}
