// Drives component registration along the behaviours of spec/Registration.tla (C28).
import { bundle, repoRequire, resetRealm } from "../lib/bundle.mjs";
import { captureConsole, freshTag, installDom, page, uninstallDom } from "../lib/dom.mjs";
import { mergeCoverage, runGraph } from "../lib/runner.mjs";

const { createMachine, createActor, assign } = repoRequire("xstate");
const { observable, makeAutoObservable } = repoRequire("mobx");
const { configureStore, createSlice } = repoRequire("@reduxjs/toolkit");

const SHARED = ["custom", "custom-raw", "store", "actor", "observable"];
const ISOLATED = ["custom", "custom-raw", "slice", "machine", "store-factory", "observable-factory"];
const NOT_OBJECTS = () => [null, undefined, [], [{}], "x", "", 0, 1, true, false, () => ({}), Symbol("s"), 4n];

let worlds = 0;
class RegistrationWorld {
	constructor(lib, kind, rng, { scope, facade, facs, tags }) {
		if (worlds++ % 60 === 59) installDom();
		Object.assign(this, { kind, rng, scope, facade });
		resetRealm();
		this.prevEnv = process.env.NODE_ENV;
		process.env.NODE_ENV = rng.pick(["development", "production"]);
		this.con = captureConsole();
		this.m = lib.instantiate();
		this.els = {};
		this.off = [];
		this.regs = {};          // tag of the specification -> what was registered there
		this.hosts = new Map();  // command -> its element
		this.args = new Map();   // element -> arguments of its latest render
		this.tags = {};
		for (const t of tags) this.tags[t] = freshTag("v-reg");
		this.facs = {};
		for (const f of facs) this.facs[f] = this.factory();
	}
	dispose() {
		for (const e of Object.values(this.els)) e.remove();
		for (const f of this.off) f();
		process.env.NODE_ENV = this.prevEnv;
		if (this.prevEnv === undefined) delete process.env.NODE_ENV;
		this.con.restore();
		resetRealm();
	}
	describe() {
		return { scope: this.scope, facade: this.facade, notes: this.notes };
	}
	facadeOptions() {
		const { rng } = this;
		const fine = () => ({ n: 1 });
		const commands = ({ host }) => {
			const me = () => host;
			this.hosts.set(me, host);
			const result = { me, other() {} };
			return rng.pick([() => result, () => Object.assign(Object.create(null), result), () => Object.freeze(result)])();
		};
		if (this.facade === "good") return { commands, ...(rng.chance(0.5) ? { states: rng.pick([fine, () => Object.freeze({ n: 1 }), () => Object.assign(Object.create(null), { n: 1 }), () => ({})]) } : {}) };
		const junk = rng.pick(NOT_OBJECTS());
		const how = rng.int(3);
		this.notes = [how, String(junk)];
		if (how === 0) return { commands, states: () => junk };
		if (how === 1) return { states: fine, commands: () => junk };
		const member = rng.pick([null, undefined, [], {}, "x", 0, true, { call() {} }]);
		this.notes = [how, String(member)];
		return { commands: () => rng.pick([{ me() {}, x: member }, { x: member, me() {} }, { x: member }]) };
	}
	/** a component factory over a counter */
	factory() {
		const { m, rng } = this;
		const kind = this.facade === "bad" && this.kind === "custom-raw" ? "custom" : this.kind;
		const shared = this.scope === "shared";
		const F = { kind };
		const reducer = (s = { n: 0 }, a) => (a.type === "INC" ? { n: s.n + 1 } : s);
		const opts = this.facadeOptions();
		const core = (extra) => m.core.igniteCore({ ...opts, ...extra });
		F.event = () => ({ type: "INC" });
		F.read = (s) => s.n;
		switch (kind) {
			case "custom": case "custom-raw": {
				const holder = () => ({ n: 0, ls: new Set() });
				const sharedHolder = holder();
				const open = () => {
					const h = shared ? sharedHolder : holder();
					let stopped = false;
					const mine = new Set();
					return {
						subscribe(l) { mine.add(l); h.ls.add(l); l({ n: h.n }); return { unsubscribe() { mine.delete(l); h.ls.delete(l); } }; },
						send() { if (stopped) return; h.n++; for (const l of [...h.ls]) l({ n: h.n }); },
						getState: () => ({ n: h.n }),
						stop() { stopped = true; for (const l of mine) h.ls.delete(l); },
					};
				};
				const scope = shared ? m.index.StateScope.Shared : rng.pick([undefined, m.index.StateScope.Isolated]);
				if (scope && rng.chance(0.5)) open.scope = scope;
				const scopeOpt = scope && !open.scope ? { scope } : {};
				F.make = kind === "custom" ? m.factory.createComponentFactory(open, { ...scopeOpt, ...opts })
					: m.index.igniteElementFactory(open, { ...scopeOpt, createAdditionalArgs: (_a, host) => { const me = () => host; this.hosts.set(me, host); return { me }; } });
				break;
			}
			case "store": F.make = core({ source: configureStore({ reducer }) }); break;
			case "store-factory": F.make = core({ source: () => configureStore({ reducer }) }); break;
			case "slice": {
				const slice = createSlice({ name: "s", initialState: { n: 0 }, reducers: { inc(s) { s.n += 1; } } });
				F.make = core({ source: slice });
				F.event = () => slice.actions.inc();
				F.read = (s) => s.s.n;
				break;
			}
			case "actor": case "machine": {
				const machine = createMachine({ context: { n: 0 }, on: { INC: { actions: assign({ n: ({ context }) => context.n + 1 }) } } });
				let source = machine;
				if (kind === "actor") { source = createActor(machine); this.off.push(() => source.stop()); }
				F.make = core({ source });
				F.read = (s) => s.context.n;
				break;
			}
			case "observable": F.make = core({ source: observable({ n: 0, inc() { this.n += 1; } }) }); F.event = () => ({ type: "inc" }); break;
			case "observable-factory": {
				class Store { n = 0; constructor() { makeAutoObservable(this); } inc() { this.n += 1; } }
				F.make = core({ source: () => new Store() });
				F.event = () => ({ type: "inc" });
				break;
			}
			default: throw new Error(kind);
		}
		return F;
	}
	/** a renderer of the shape; records who renders for whom */
	renderer(F, shape, log) {
		const { rng } = this;
		const w = this;
		const view = (args, self) => {
			const host = w.hosts.get(args.me);
			w.args.set(host, args);
			log.calls.push({ host, self });
			return `n=${F.read(args.state)}`;
		};
		switch (shape) {
			case "function": return rng.pick([
				(args) => view(args),
				function (args) { return view(args); },
				{ render(args) { return view(args); } }.render,
				function (args) { return view(args); }.bind({ render() { return "wrong"; } }),
				Object.assign((args) => view(args), { render: () => "wrong" }),
				Object.assign(function (args) { return view(args); }, { render: () => "wrong" }),
			]);
			case "object": {
				const make = rng.pick([
					() => ({ tag: "own", render(args) { return this?.tag === "own" ? view(args, this) : "lost this"; } }),
					() => new (class { #secret = "own"; render(args) { return this.#secret === "own" ? view(args, this) : "lost this"; } })(),
					() => Object.freeze({ tag: "own", render(args) { return this?.tag === "own" ? view(args, this) : "lost this"; } }),
					() => Object.assign(Object.create(null), { tag: "own", render(args) { return this?.tag === "own" ? view(args, this) : "lost this"; } }),
					() => ({ tag: "own", render: (args) => view(args, null) }),
					() => new (class Sub extends class { render(args) { return view(args, this); } } {})(),
					() => ({ prototype: { render: () => "wrong" }, render(args) { return view(args, this); } }),
				]);
				const o = make();
				log.object = o;
				return o;
			}
			case "class": {
				const born = (self) => { log.instances.push(self); };
				return rng.pick([
					() => class { #n = 0; constructor() { born(this); } render(args) { this.#n++; return view(args, this); } },
					() => class extends class { constructor() { born(this); } render(args) { return view(args, this); } } {},
					() => class { tag = "own"; constructor() { born(this); } helper(args) { return this.tag === "own" ? view(args, this) : "lost"; } render(args) { return this.helper(args); } },
					() => { function Old() { born(this); } Old.prototype.render = function (args) { return view(args, this); }; return Old; },
					() => class { static render() { return "wrong"; } constructor() { born(this); } render(args) { return view(args, this); } },
				])();
			}
			case "invalid": return rng.pick([null, undefined, 0, 1, "", "render", true, {}, [], Symbol("r"), { Render() {} }, { render: undefined }, { render: 1 }, { render: null }, new Map()]);
			default: throw new Error(shape);
		}
	}
	step(a, pre, post) {
		const out = [];
		const bad = (text) => out.push({ tag: "registration", text: `${this.kind} ${this.scope}: ${a.name}(${a.args.join(", ")}): ${text}` });
		page.errors.length = 0;
		const { rng } = this;
		const [x, y, z] = a.args;
		let thrown = null;
		try {
			switch (a.name) {
				case "Register": {
					const log = { calls: [], instances: [], f: x, shape: z };
					const r = this.renderer(this.facs[x], z, log);
					if (a.outcome !== "throws") this.regs[y] = log;
					this.facs[x].make(this.tags[y], r);
					break;
				}
				case "RegisterBadName": {
					const name = rng.pick(["nodash", "Upper-Case", "1-a", "", "font-face", "a b-c", "-a"]);
					this.facs[x].make(name, this.renderer(this.facs[x], y, { calls: [], instances: [] }));
					break;
				}
				case "Define": page.window.customElements.define(this.tags[x], class extends page.window.HTMLElement { connectedCallback() { this.textContent = "plain"; } }); break;
				case "Create": {
					const holder = page.document.createElement("div");
					page.document.body.appendChild(holder);
					if (rng.chance(0.4)) holder.innerHTML = `<${this.tags[y]}></${this.tags[y]}>`;
					else holder.appendChild(page.document.createElement(this.tags[y]));
					this.els[x] = holder.firstChild;
					break;
				}
				case "Drop": this.els[x].parentNode.remove(); delete this.els[x]; break;
				case "Change": this.args.get(this.els[x]).send(this.facs[this.regs[pre.el[x].t].f].event()); break;
				default: throw new Error(`unknown action ${a.name}`);
			}
		} catch (e) {
			thrown = { e };
		}
		if (a.outcome === "throws" ? !thrown : thrown) bad(thrown ? `threw ${thrown.e?.message ?? String(thrown.e)}` : "was accepted");
		if (thrown && a.outcome === "throws" && !(thrown.e instanceof Error || thrown.e instanceof page.window.DOMException)) bad(`threw ${String(thrown.e)}`);
		if (a.outcome === "reported" ? !page.errors.length : page.errors.length) bad(page.errors.length ? `uncaught ${page.errors[0]?.message ?? page.errors[0]}` : "no error was reported");
		if (out.length) return out;
		for (const [e, { t, st }] of Object.entries(post.el)) {
			if (st === "no") continue;
			const node = this.els[e];
			const shown = node.shadowRoot?.textContent;
			if (st === "live") {
				const reg = post.reg[t];
				const want = `n=${this.scope === "shared" ? post.nf[reg.f] : post.ne[e]}`;
				if (shown !== want) bad(`${e} shows ${JSON.stringify(shown)}, expected ${JSON.stringify(want)} (${reg.r} renderer)`);
			} else if (st === "plain") {
				if (node.shadowRoot || node.textContent !== "plain") bad(`${e}, an element of somebody else, shows ${JSON.stringify(shown ?? node.textContent)}`);
			} else if (shown) bad(`${e} (${st}) shows ${JSON.stringify(shown)}`);
		}
		for (const [t, log] of Object.entries(this.regs)) {
			const live = Object.entries(post.el).filter(([, v]) => v.t === t && v.st === "live").map(([e]) => this.els[e]);
			if (log.shape === "object" && log.calls.some((c) => c.self && c.self !== log.object)) bad(`${t}: render was called on another object`);
			if (log.shape !== "class") continue;
			const most = post.inst[t];
			if (log.instances.length > most) bad(`${t}: ${log.instances.length} instances of the renderer class, expected ${most}`);
			if (log.calls.some((c) => !log.instances.includes(c.self))) bad(`${t}: render was called on something that is not an instance`);
			const of = live.map((e) => new Set(log.calls.filter((c) => c.host === e).map((c) => c.self)));
			if (of.some((s) => s.size > 1)) bad(`${t}: an element changed its renderer instance`);
			const distinct = new Set(of.flatMap((s) => [...s])).size;
			if (live.length && distinct !== (this.scope === "shared" ? 1 : live.length)) bad(`${t}: ${distinct} renderer instances for ${live.length} elements`);
		}
		return out;
	}
}

export async function runRegistration(ctx) {
	const lib = await bundle(["index", "core", "factory"]);
	installDom();
	let cov = {};
	for (const [scope, facade] of [["shared", "good"], ["isolated", "good"], ["shared", "bad"], ["isolated", "bad"]]) {
		const facs = ctx.thorough ? ["f1", "f2"] : ["f1"];
		const tags = ["t1", "t2"];
		const c = await runGraph(ctx, {
			spec: {
				module: "Registration",
				cfg: {
					constants: { Els: new Set(["e1", "e2"]), Tags: new Set(tags), Facs: new Set(facs), SCOPE: scope, FACADE: facade, MaxVal: 1, MaxMade: 3 },
					view: "View", actionConstraint: "EmitEdge", invariants: ["OnlyWorkingLive", "OncePerShared", "SharedNeverInvalid"], properties: ["NameIsForever", "RefusalIsInert"],
				},
			},
			isInit: (s) => Object.values(s.reg).every((r) => r.k === "free") && Object.values(s.el).every((e) => e.st === "no") && Object.values(s.nf).every((n) => n === 0),
			kinds: scope === "shared" ? SHARED : ISOLATED, tags: ["registration"], walkLen: 50, random: 12, randomLen: 40,
			world: (kind, rng) => new RegistrationWorld(lib, kind, rng, { scope, facade, facs, tags }),
		});
		cov = mergeCoverage(cov, c);
		if (ctx.done()) break;
	}
	uninstallDom();
	return cov;
}
