// Drives configuration, global styles and renderer selection along spec/Config.tla (C20 .. C23).
import { bundle, repoRequire, resetRealm } from "../lib/bundle.mjs";
import { captureConsole, freshTag, installDom, page, uninstallDom } from "../lib/dom.mjs";
import { inParallel } from "../lib/parallel.mjs";
import { mergeCoverage, runGraph } from "../lib/runner.mjs";
import { show } from "../lib/values.mjs";

const { html } = repoRequire("lit-html");
const { configureStore } = repoRequire("@reduxjs/toolkit");

// Usable references; the attributes the link has to have.
const GOOD = [
	"./theme.css", "/assets/app.css", "https://cdn.example/x/y.css?v=1.2", "main.scss", "a b.css", "style.css#part", "file.css?import=a.js", "../up/x.scss?inline", "x.css?raw#frag", "  padded.css ",
	{ href: "./obj.css" }, { href: "/no-extension" }, { href: "https://cdn.example/a.css", integrity: "sha384-abc" },
	{ href: "https://cdn.example/b.css", integrity: "sha384-abc+/=", crossOrigin: "anonymous" }, { href: "c.css", crossOrigin: "use-credentials" },
	{ href: "d.css", integrity: undefined, crossOrigin: undefined },
	"x.css.scss", ".css", "deep/er/.scss", "theme.min.css", "//cdn.example/p.css", "data:text/css,a.css", "ünï.css", "a.css?b.css?c", "a.css#b?c.js", "x.css?", "x.css#", "a%20b.css", "\tx.css\n",
	{ href: "https://cdn.example/a.css", integrity: "sha384-other" }, { href: "https://cdn.example/a.css" }, { href: "./theme.css", crossOrigin: "anonymous" },
	{ href: "styles.less" }, { href: "no.css", integrity: "", crossOrigin: "" }, { href: "blob:https://x/1-2" }, { href: "e.css", integrity: "sha256-a sha512-b", crossOrigin: "anonymous" },
];
const HREF = (s) => (typeof s === "string" ? s : s.href);
const BAD = ["theme", "styles.less", "a.js?x=.css", "b.css.map", "css", "x.scss/", "index.html#a.css", "   ", "a.scs", "acss", "x.css/y", "a.css.js", "x?y=a.css", "#a.css", "?a.css", "http://cdn.example/css", "a.sass", ".css.", "body { color: red }"];
const attrsOf = (s) => {
	const o = typeof s === "string" ? { href: s } : s;
	const out = { rel: "stylesheet", href: o.href.trim() };
	if (o.integrity) out.integrity = o.integrity;
	if (o.crossOrigin) out.crossorigin = o.crossOrigin;
	return out;
};

let worlds = 0;
class ConfigWorld {
	constructor(lib, kind, rng, mode) {
		// jsdom slows down with the number of registered components
		if (worlds++ % 100 === 99) installDom();
		this.kind = kind;
		this.rng = rng;
		this.mode = mode;
		resetRealm();
		this.con = captureConsole();
		if (rng.chance(0.5)) this.other = lib.instantiate();
		this.m = lib.instantiate();
		const [a, b] = rng.shuffle(GOOD);
		// now and then two references that differ in one respect only
		const like = GOOD.filter((g) => g !== a && HREF(g) === HREF(a));
		if (typeof a === "object" && !Object.isFrozen(a)) like.push({ ...a, integrity: "sha384-changed" }, { ...a, crossOrigin: a.crossOrigin === "anonymous" ? "use-credentials" : "anonymous" }, { ...a, href: `${a.href}?2` });
		else like.push(`${a.trim()}?2.css`, { href: a, crossOrigin: "anonymous" });
		this.words = { replace: rng.pick(["replace", "diff", "custom", "Replace", "", "no-diff"]), warn: rng.pick(["warn", "off", "debug", "info", "verbose", ""]) };
		this.ref = { s1: a, s2: rng.chance(0.4) ? rng.pick(like) : b, bad: rng.pick(BAD), empty: "", none: undefined };
		this.els = new Map();
		this.loads = new Map();
		if (mode === "factory") this.m.registry.clearRegisteredRenderStrategiesForTests();
		this.log = [];
		if (kind === "nodiff") process.env.IGNITE_DIFF_ENABLED = "false";
		this.server = kind === "server";
		this.con.take();
	}
	describe() {
		return { refs: this.ref };
	}
	dispose() {
		delete process.env.IGNITE_DIFF_ENABLED;
		for (const { el } of [...this.els.values()].flat()) el.remove();
		this.con.restore();
		resetRealm();
	}
	// ---------------------------------------------------------------- pieces
	input(i) {
		const rng = this.rng;
		const o = {};
		const put = (k, v) => { if (v !== "absent") o[k] = v; };
		const fields = rng.shuffle([
			() => put("styles", i.styles === "absent" ? "absent" : this.ref[i.styles === "undef" ? "none" : i.styles]),
			() => put("globalStyles", i.old === "absent" ? "absent" : this.ref[i.old === "undef" ? "none" : i.old]),
			() => put("renderer", i.renderer === "other" ? rng.pick(["react", "LIT", "", "ignite", "jsx", 3, null, "toString", "lit "]) : i.renderer),
			() => put("strategy", this.words[i.strategy] ?? i.strategy),
			() => put("logging", this.words[i.logging] ?? i.logging),
		]);
		for (const f of fields) f();
		return rng.chance(0.2) ? Object.freeze(o) : o;
	}
	expected(c) {
		if (c.renderer === "nocfg") return undefined;
		const o = {};
		if (c.styles !== "absent") o.styles = this.ref[c.styles];
		for (const k of ["renderer", "strategy", "logging"]) if (c[k] !== "absent") o[k] = (k !== "renderer" ? this.words[c[k]] : undefined) ?? c[k];
		return o;
	}
	adapter() {
		const w = this;
		const subs = new Set();
		return {
			scope: "isolated", n: 0,
			subscribe(l) { subs.add(l); l({ n: this.n, of: this }); return { unsubscribe: () => subs.delete(l) }; },
			getState() { return { n: this.n, of: this }; },
			send() {}, stop() {},
			bump() { this.n++; w.n = this.n; for (const l of [...subs]) l({ n: this.n, of: this }); },
		};
	}
	strategyOf(kind) {
		if (kind === "lit") return this.m.litRenderer.createLitRenderStrategy;
		return this.m.jsxRenderer.createIgniteJsxRenderStrategy;
	}
	element(kind) {
		this.tags ??= new Map();
		let t = this.tags.get(kind);
		if (!t) {
			t = { tag: freshTag("v-cfg"), boxes: new Map() };
			this.tags.set(kind, t);
			const register = this.m.index.igniteElementFactory(() => (t.adapter = this.adapter()), { createRenderStrategy: this.strategyOf(kind) });
			const jsx = this.m.jsx.jsx;
			register(t.tag, ({ state }) => {
				const box = state.of.box;
				box.shows = `${box.shape}:${state.n}`;
				if (kind === "lit") return [html`<p class="out">${box.shows}</p>`, html`<ul><li class="out">${box.shows}</li></ul>`][box.shape];
				return box.shape ? jsx("ul", { children: jsx("li", { class: "out", children: box.shows }) }) : jsx("p", { class: "out", children: box.shows });
			});
			// (a factory may warn about the configured renderer although it does not use it)
			this.con.take();
		}
		const el = document.createElement(t.tag);
		const box = { shape: 0, el, adapter: t.adapter, kind };
		t.adapter.box = box;
		return box;
	}
	links(el) {
		return [...el.shadowRoot.querySelectorAll("link, style")].map((l) => {
			const o = Object.fromEntries([...l.attributes].map((a) => [a.name, a.name === "href" ? a.value.trim() : a.value]));
			// jsdom knows these as plain properties only
			if (l.integrity) o.integrity = l.integrity;
			if (l.crossOrigin) o.crossorigin = l.crossOrigin;
			return o;
		});
	}
	checkRoot(box, want, bad, who) {
		const have = this.links(box.el);
		const exp = ["no", "wait", "bad", "none"].includes(want) ? [] : [attrsOf(this.ref[want])];
		if (show(have) !== show(exp)) bad(`${who} has the style nodes ${show(have)}, expected ${show(exp)}`);
		const o = [...box.el.shadowRoot.querySelectorAll(".out")].map((x) => x.textContent);
		if (box.el.isConnected && (o.length !== 1 || o[0] !== box.shows)) bad(`${who} shows ${show(o)}, expected ${box.shows}`);
		const top = box.el.shadowRoot.adoptedStyleSheets?.length ?? 0;
		if (top) bad(`${who} adopted style sheets`);
	}
	// ----------------------------------------------------------------- steps
	async perform(a) {
		const { m, rng } = this;
		const [x, y, z] = a.args;
		switch (a.name) {
			case "Define": {
				const given = this.input(x);
				const before = show(given);
				const from = this.other && rng.chance(0.3) && x.styles === "absent" && ["absent", "undef"].includes(x.old) ? this.other : m;
				const result = from.index.defineIgniteConfig(given);
				if (show(given) !== before) return { fault: "the caller's object was changed" };
				if (!Object.isFrozen(given)) { given.renderer = "changed later"; given.strategy = "changed later"; given.styles = "changed-later.css"; }
				return { result };
			}
			case "SetStyles": m.index.setGlobalStyles(this.ref[x]); return {};
			case "SetArray": m.index.setGlobalStyles(rng.pick([[], ["a.css"], [this.ref.s1, this.ref.s2]])); return {};
			case "LoadStart": {
				const d = {};
				d.promise = new Promise((res, rej) => { d.resolve = res; d.reject = rej; });
				const loader = () => { d.calls = (d.calls ?? 0) + 1; return d.promise; };
				this.unwindow(() => { d.load = m.load.loadIgniteConfig(loader); });
				d.load.then((v) => { d.got = { value: v }; }, (e) => { d.got = { error: e }; });
				this.loads.set(x, d);
				await tick();
				if (d.got) return { fault: "settled before its loader" };
				return {};
			}
			case "LoadConfig": {
				const d = this.loads.get(x);
				const i = this.input(z);
				const mod = y === "plain" ? i : rng.pick([{ default: i }, Object.seal(Object.create(null, { default: { value: i, enumerable: true, writable: true }, [Symbol.toStringTag]: { value: "Module" } })), { get default() { return i; } }, { default: i, styles: "other.css", renderer: "lit" }, { __esModule: true, default: i }, Object.assign(Object.create(null), { default: i })]);
				return this.settle(d, () => d.resolve(mod));
			}
			case "LoadNothing": {
				const d = this.loads.get(x);
				const junk = [undefined, null, 0, 7, "", "config", false, true, () => ({ renderer: "lit" })];
				const err = new Error("loader failed");
				if (y === "reject") return { ...(await this.settle(d, () => d.reject(err))), err };
				if (y === "throw") {
					// a loader that throws while it is called; the pending one yields nothing
					await this.settle(d, () => d.resolve(undefined));
					let got;
					try {
						got = { value: await this.unwindow(() => m.load.loadIgniteConfig(() => { throw err; })) };
					} catch (e) { got = { error: e }; }
					return { got, err };
				}
				return this.settle(d, () => d.resolve(y === "nothing" ? rng.pick(junk) : { default: rng.pick(junk), ...(rng.chance(0.5) ? { renderer: "lit", styles: "x.css" } : {}) }));
			}
			case "Create": {
				// each element of the specification stands for one or more that go the same way
				const n = rng.pick([1, 1, 1, 2, 3, 12]);
				const crowd = Array.from({ length: n }, () => this.element(this.kind === "mixed" ? rng.pick(["jsx", "lit"]) : this.kind));
				this.els.set(x, crowd);
				for (const box of crowd) if (rng.chance(0.7)) page.document.body.append(box.el);
				return {};
			}
			case "Attach":
				for (const box of rng.shuffle(this.els.get(x))) this.strategyOf(box.kind)().attach(box.el.shadowRoot);
				return {};
			case "Use": {
				for (const box of rng.shuffle(this.els.get(x))) {
					if (!box.el.isConnected) page.document.body.append(box.el);
					if (y === "render") rng.chance(0.5) ? box.adapter.bump() : box.el.forceRender();
					else if (y === "switch") { box.shape = 1 - box.shape; box.el.forceRender(); }
					else { box.el.remove(); page.document.body.append(box.el); }
				}
				return {};
			}
			case "Register": (this.other && rng.chance(0.4) ? this.other : m).index.registerRenderStrategy(x, this.fake(`${x}@${y}`)); return {};
			case "MakeFactory": this.fac = { make: this.makeFactory(rng.int(3)), label: null }; return {};
			case "MakeExplicit": this.fac = { make: m.index.igniteElementFactory(() => this.adapter(), { createRenderStrategy: this.fake("explicit@0") }) }; return {};
			case "UseFactory": {
				const tag = freshTag("v-fac");
				this.fac.make(tag, () => "view");
				const el = document.createElement(tag);
				page.document.body.append(el);
				const shown = el.shadowRoot.textContent;
				el.remove();
				return { shown };
			}
			default: throw new Error(`unknown action ${a.name}`);
		}
	}
	makeFactory(k) {
		if (k === 0) return this.m.index.igniteElementFactory(() => this.adapter());
		if (k === 1) return this.m.core.igniteCore();
		return this.m.core.igniteCore({ source: configureStore({ reducer: (s = { n: 1 }) => s }) });
	}
	fake(label) {
		return () => ({
			attach(host) { this.host = host; },
			render(view) { if (!this.host) throw new Error("render before attach"); this.host.textContent = `${label} ${view}`; },
			detach() {},
		});
	}
	unwindow(fn) {
		if (!this.server) return fn();
		const w = globalThis.window;
		delete globalThis.window;
		try {
			return fn();
		} finally {
			Object.defineProperty(globalThis, "window", { value: w, configurable: true, writable: true });
		}
	}
	async settle(d, fn) {
		fn();
		for (let i = 0; i < 40 && !d.got; i++) await tick();
		if (!d.got) return { fault: "never settled" };
		if (d.calls !== 1) return { fault: `ran its loader ${d.calls} times` };
		return { got: d.got };
	}
	async step(a, pre, post) {
		const out = [];
		const bad = (text) => out.push({ tag: this.mode, text: `${this.kind}: ${a.name}(${a.args.map((x) => (typeof x === "object" ? show(x) : x)).join(", ")}): ${text}` });
		this.con.take();
		page.errors.length = 0;
		let r = {};
		let thrown = null;
		try {
			r = await this.perform(a);
		} catch (e) {
			thrown = e;
		}
		const logs = this.con.take();
		const warns = logs.filter((l) => l.level === "warn");
		if (a.result === "throws" ? !thrown : thrown) bad(thrown ? `threw ${thrown.stack ?? thrown}` : "did not throw");
		for (const e of page.errors) bad(`uncaught ${e?.message ?? e}`);
		if (r.fault) bad(r.fault);
		if (a.warn === 0 ? warns.length : a.warn > 0 && warns.length < a.warn) bad(`gave ${warns.length} warnings (${warns.map((w) => w.text.slice(0, 60)).join("; ")}), expected ${a.warn}`);
		if (logs.some((l) => l.level === "error")) bad(`logged an error: ${logs.find((l) => l.level === "error").text}`);
		if (r.got) {
			if (a.result === "error") { if (r.got.error !== r.err) bad(`did not reject with the loader's error but ${show(r.got)}`); }
			else if (r.got.error) bad(`rejected: ${r.got.error.stack ?? r.got.error}`);
			else if (a.result === "undefined" && r.got.value !== undefined) bad(`resolved to ${show(r.got.value)}, expected undefined`);
			else if (a.result === "config") r.result = r.got.value;
		}
		const want = this.expected(post.cfg);
		if (a.result === "config" && clean(r.result) !== clean(want)) bad(`returned ${clean(r.result)}, expected ${clean(want)}`);
		for (const lib of [this.m, this.other]) {
			if (!lib) continue;
			const have = lib.index.getIgniteConfig();
			if (clean(have) !== clean(want)) bad(`the configuration in force${lib === this.other ? " (another copy of the library)" : ""} is ${clean(have)}, expected ${clean(want)}`);
		}
		for (const [e, crowd] of this.els) crowd.forEach((box, i) => this.checkRoot(box, post.els[e], bad, crowd.length > 1 ? `${e} (${i + 1} of ${crowd.length})` : e));
		if (a.name === "UseFactory") {
			const f = post.fac[a.args[0]];
			const exp = `${f.name}@${f.ver}`;
			const given = this.makeKindView(r.shown);
			if (given !== exp) bad(`the element was rendered by ${given}, expected ${exp}`);
		}
		if (this.mode === "define") {
			// what a component created now gets
			const probe = this.element("jsx");
			this.con.take();
			page.document.body.append(probe.el);
			this.checkRoot(probe, post.gs, bad, "a new component");
			probe.el.remove();
		}
		if (a.name === "LoadConfig" && !this.server && !out.length) this.checkRenderer(post, bad);
		return out;
	}
	makeKindView(text) {
		return String(text).split(" ")[0];
	}
	/** the renderer the configuration names is there and works */
	checkRenderer(post, bad) {
		this.con.take();
		const make = this.m.index.igniteElementFactory(() => this.adapter());
		const w = this.con.take().filter((l) => l.level === "warn");
		if (w.length) bad(`the renderer is not available: ${w[0].text}`);
		const tag = freshTag("v-ren");
		const lit = post.cfg.renderer === "lit";
		make(tag, ({ state }) => (lit ? html`<p id="out">${state.n}</p>` : this.m.jsx.jsx("p", { id: "out", children: state.n })));
		const el = document.createElement(tag);
		page.document.body.append(el);
		if (el.shadowRoot.querySelector("#out")?.textContent !== "0") bad(`a component does not display with the renderer ${post.cfg.renderer}`);
		el.remove();
		this.con.take();
	}
}
const clean = (v) => (v && typeof v === "object" ? show(Object.fromEntries(Object.entries(v).filter(([, x]) => x !== undefined))) : show(v));
const tick = () => new Promise((r) => setImmediate(r));

const INVARIANTS = ["Normal"];
const PROPS = ["StyledOnce", "NoneLeftWaiting", "OnlyDefined", "StylesOnlyByStyles", "LoadApplies", "LoadNothingChangesNothing", "FactoryKeeps", "Preferred", "FallbackJsx"];
const MODES = {
	define: { kinds: ["jsx"], els: [], loads: [], facs: [], entries: ["index", "core", "load", "jsx", "jsxRenderer", "litRenderer", "registry"] },
	styles: { kinds: ["jsx", "lit", "nodiff", "mixed"], els: ["e1", "e2"], loads: ["l1"], facs: [], entries: ["index", "core", "load", "jsx", "jsxRenderer", "litRenderer", "registry"] },
	load: { kinds: ["jsx", "server"], els: ["e1"], loads: ["l1", "l2"], facs: [], entries: ["index", "core", "load", "jsx", "jsxRenderer", "registry"] },
	factory: { kinds: ["any"], els: [], loads: [], facs: ["f1"], entries: ["index", "core", "load", "jsx", "jsxRenderer", "registry"] },
};

export async function runConfig(ctx, { mode }) {
	const d = MODES[mode];
	const jobs = [];
	const groups = mode === "load" ? [["jsx"], ["server"]] : mode === "styles" ? d.kinds.map((k) => [k]) : [d.kinds];
	const shards = { define: 6, styles: ctx.thorough ? 3 : 2, load: 2, factory: 1 }[mode];
	for (const kinds of groups) for (let i = 0; i < shards; i++) jobs.push({ mode, kinds, shard: [i, shards] });
	return jobs.length > 1 ? (await inParallel(ctx, "config", jobs)).reduce(mergeCoverage, {}) : configPart(ctx, jobs[0]);
}

export async function configPart(ctx, { mode, kinds, shard }) {
	const d = MODES[mode];
	const lib = await bundle(d.entries);
	installDom();
	const server = kinds.includes("server");
	const cov = await runGraph(ctx, {
		spec: {
			module: "Config",
			cfg: {
				constants: { Mode: mode, Els: new Set(server ? [] : ctx.thorough && mode === "styles" ? ["e1", "e2", "e3"] : d.els), Loads: new Set(ctx.thorough && mode === "styles" ? ["l1", "l2"] : d.loads), Facs: new Set(d.facs), MaxVer: 2, SERVER: server },
				view: "View", actionConstraint: "Emit", invariants: INVARIANTS, properties: PROPS,
			},
		},
		isInit: (s) => s.cfg.renderer === "nocfg" && s.gs === "none" && Object.values(s.els).every((v) => v === "no") && Object.values(s.loads).every((v) => v === "idle") && s.reg.length === (mode === "factory" ? 0 : 1) && Object.values(s.fac).every((f) => f.name === "none"),
		kinds, tags: [mode], walkLen: 60, random: 12, share: mode !== "styles", shard,
		world: (kind, rng) => new ConfigWorld(lib, kind, rng, mode),
	});
	uninstallDom();
	return cov;
}
