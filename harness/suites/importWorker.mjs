// One process-like realm without a DOM (a worker thread): imports entry points and calls them.
import { parentPort, workerData } from "node:worker_threads";
import { createRequire } from "node:module";
import path from "node:path";

const { dir, repo, variant } = workerData;
const req = createRequire(path.join(repo, "package.json"));
const mods = {};
const user = {};
// everything a page has and Node does not (or has its own)
const DOM = ["window", "self", "document", "navigator", "location", "history", "HTMLElement", "SVGElement", "Element", "Node", "Document",
	"DocumentFragment", "ShadowRoot", "customElements", "CustomElementRegistry", "CSSStyleSheet", "Event", "EventTarget", "CustomEvent",
	"MutationObserver", "Text", "Comment", "HTMLInputElement", "HTMLTemplateElement", "HTMLLinkElement", "HTMLStyleElement", "DOMParser",
	"requestAnimationFrame", "cancelAnimationFrame", "getComputedStyle", "localStorage", "sessionStorage", "NodeFilter", "XMLHttpRequest",
	"CSS", "Range", "Selection", "Attr", "CharacterData", "HTMLDivElement", "HTMLButtonElement", "HTMLSlotElement", "HTMLUnknownElement", "ElementInternals",
	"ResizeObserver", "IntersectionObserver", "KeyboardEvent", "MouseEvent", "InputEvent", "FormData", "matchMedia", "global", "globalThis", "Object", "Array", "Proxy", "Reflect", "JSON", "Error", "structuredClone", "Buffer", "URL",
	"queueMicrotask", "process", "console", "setTimeout", "fetch", "Promise", "Map", "WeakMap", "Symbol"];
const snap = () => Object.fromEntries(DOM.map((n) => {
	const d = Object.getOwnPropertyDescriptor(globalThis, n);
	return [n, d ? [d.get, d.get ? undefined : d.value] : null];
}));
let before = snap();
const defs = [];
const hooks = {};
let tag = 0;

const api = {
	Start(env) {
		// DOMs come in many shapes: a page's, a test library's, a hand-made minimum; read-only or not
		const put = (n, value) => {
			user[n] = value;
			if (variant.fixed === 1) Object.defineProperty(globalThis, n, { value, configurable: true, enumerable: false, writable: false });
			else if (variant.fixed === 2) Object.defineProperty(globalThis, n, { get: () => value, configurable: true, enumerable: true });
			else globalThis[n] = value;
		};
		if (env === "full" || env === "onlyHTMLElement") {
			const shadow = { attachShadow() { return {}; } };
			const base = class Element { attachShadow() { return {}; } };
			put("HTMLElement", [
				() => class HTMLElement { attachShadow() { return {}; } },
				() => class HTMLElement extends base {},
				() => class HTMLElement {},
				() => { function HTMLElement() {} Object.assign(HTMLElement.prototype, shadow); return HTMLElement; },
				() => Object.freeze(class extends base {}),
			][variant.he]());
		}
		if (env === "full" || env === "onlyCustomElements") {
			const names = new Map();
			const define = (n, c) => { names.set(n, c); defs.push([n, c]); };
			const get = (n) => names.get(n);
			put("customElements", [
				() => ({ define, get, getName: () => null, upgrade() {}, whenDefined: async () => {} }),
				() => ({ define, get }),
				() => Object.freeze({ define, get, whenDefined: async () => {} }),
				() => new (class CustomElementRegistry { define(n, c) { define(n, c); } get(n) { return get(n); } })(),
				() => Object.assign(Object.create(null), { define, get }),
			][variant.ce]());
		}
		if (env === "full") {
			globalThis.window = globalThis;
			globalThis.document = { createElement: () => ({}), createTreeWalker: () => ({}), createComment: () => ({}), head: { appendChild() {} }, adoptedStyleSheets: [] };
		}
		before = snap();
	},
	async Import(x) { mods[x] = await import(path.join(dir, `${x}.mjs`)); },
	Declare(x) {
		const m = mods[x];
		const name = `x-${tag++}`;
		const n0 = defs.length;
		const render = () => null;
		const one = (f) => {
			f(name, render);
			if (user.customElements) {
				const d = defs[n0];
				if (!d || d[0] !== name) return `"${name}" was not defined in the customElements found`;
				if (user.HTMLElement && !(d[1].prototype instanceof user.HTMLElement)) return "the component does not extend the HTMLElement found";
			}
			if (!(typeof globalThis.HTMLElement === "function" && globalThis.customElements)) return "HTMLElement or customElements is missing";
			return null;
		};
		if (x === "index") {
			const open = () => ({ subscribe: (l) => { l({}); return { unsubscribe() {} }; }, send() {}, getState: () => ({}), stop() {} });
			return one(m.igniteElementFactory(open, tag % 2 ? { scope: m.StateScope.Shared } : {}));
		}
		if (x === "xstate") {
			const { createMachine, createActor } = req("xstate");
			const machine = createMachine({ context: { n: 0 } });
			return one(m.igniteCore({ source: tag % 2 ? machine : createActor(machine), states: (s) => ({ n: s.context.n }), commands: () => ({ go() {} }) }));
		}
		if (x === "redux") {
			const { configureStore, createSlice } = req("@reduxjs/toolkit");
			const slice = createSlice({ name: "s", initialState: { n: 0 }, reducers: {} });
			return one(m.igniteCore({ source: tag % 2 ? slice : configureStore({ reducer: slice.reducer }), events: (e) => ({ ping: e() }) }));
		}
		const { observable } = req("mobx");
		return one(m.igniteCore({ source: tag % 2 ? () => observable({ n: 0 }) : observable({ n: 0 }) }));
	},
	Strategy(x) {
		const m = mods[x];
		const s = (m.createIgniteJsxRenderStrategy ?? m.createLitRenderStrategy)();
		return typeof s.render === "function" ? null : "no render strategy";
	},
	async Plugin(x) {
		const m = mods[x];
		if (x === "vite") return m.igniteConfigVitePlugin().name ? null : "no plugin";
		return typeof new m.IgniteConfigWebpackPlugin().apply === "function" ? null : "no plugin";
	},
	async LoadConfig() {
		const c = await mods.load.loadIgniteConfig(async () => ({ default: { renderer: "ignite-jsx", strategy: "replace" } }));
		if (c?.renderer !== "ignite-jsx" || c.strategy !== "replace") return `loaded ${JSON.stringify(c)}`;
		if ((await mods.load.loadIgniteConfig(async () => ({ default: undefined }))) !== undefined) return "an absent configuration was loaded";
		return null;
	},
	Jsx(x) {
		const m = mods[x];
		const f = m.jsx ?? m.jsxDEV;
		const v = f("div", { class: "a", children: ["x", f(m.Fragment, { children: 1 })] });
		return v && typeof v === "object" ? null : "no element";
	},
	Configure() {
		const m = mods.index;
		const c = m.defineIgniteConfig({ styles: "./a.css", renderer: tag++ % 2 ? "lit" : "ignite-jsx", logging: "off" });
		if (c.styles !== "./a.css") return `the configuration became ${JSON.stringify(c)}`;
		if (m.getIgniteConfig() !== c) return "the configuration was not kept";
		return null;
	},
};
let last = Promise.resolve();
for (const ev of ["unhandledRejection", "uncaughtException"]) process.on(ev, (e) => { hooks.stray ??= String(e?.message ?? e); });
for (const l of ["info", "warn", "log", "error"]) console[l] = () => {};
parentPort.on("message", ({ name, args }) => {
	last = last.then(async () => {
		let text = null;
		try {
			text = (await api[name](...args)) ?? null;
		} catch (e) {
			text = `threw ${e?.message ?? e}`;
		}
		await new Promise((r) => setImmediate(r));
		const now = snap();
		const changed = DOM.filter((n) => n !== "HTMLElement" && n !== "customElements" && JSON.stringify(!now[n]) + JSON.stringify(!before[n]) !== (before[n] ? "falsefalse" : "truetrue") || (now[n] && before[n] && (now[n][0] !== before[n][0] || now[n][1] !== before[n][1])));
		const kind = (n) => (globalThis[n] === undefined ? "absent" : globalThis[n] === user[n] ? "user" : "stub");
		parentPort.postMessage({ text: text ?? (hooks.stray ? `stray error: ${hooks.stray}` : null), changed: changed.filter((n) => n !== "HTMLElement" && n !== "customElements"), he: kind("HTMLElement"), ce: kind("customElements") });
	});
});
