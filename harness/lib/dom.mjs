// A jsdom page installed on globalThis, with recording of everything a page author would notice
// going wrong: uncaught errors (custom-element reactions report, they do not throw) and console.
import { repoRequire } from "./bundle.mjs";

const NAMES = [
	"window", "document", "HTMLElement", "SVGElement", "Element", "Node", "customElements", "Event",
	"CustomEvent", "EventTarget", "ShadowRoot", "MutationObserver", "DocumentFragment", "Text",
	"Comment", "KeyboardEvent", "MouseEvent", "InputEvent", "HTMLInputElement", "NodeFilter",
];
let saved = null;
export let page = null;

export function installDom(html = "<!doctype html><html><head></head><body></body></html>") {
	uninstallDom();
	const { JSDOM, VirtualConsole } = repoRequire("jsdom");
	const errors = [];
	const vc = new VirtualConsole();
	vc.on("jsdomError", (e) => {
		errors.push(e?.cause ?? e?.detail ?? e);
	});
	const dom = new JSDOM(html, { virtualConsole: vc, pretendToBeVisual: false, url: "http://localhost/" });
	saved = new Map();
	for (const n of NAMES) {
		saved.set(n, Object.getOwnPropertyDescriptor(globalThis, n));
		Object.defineProperty(globalThis, n, {
			value: n === "window" ? dom.window : dom.window[n],
			configurable: true, writable: true, enumerable: false,
		});
	}
	page = { dom, window: dom.window, document: dom.window.document, errors };
	return page;
}

export function uninstallDom() {
	if (!saved) return;
	for (const [n, d] of saved) {
		if (d) Object.defineProperty(globalThis, n, d);
		else delete globalThis[n];
	}
	saved = null;
	page?.window.close();
	page = null;
}

let tagCounter = 0;
export const freshTag = (prefix = "v-el") => `${prefix}-${(tagCounter++).toString(36)}`;

const LEVELS = ["log", "info", "warn", "error", "debug"];
/** Run fn with the console captured; returns {value, logs:[{level,args,text}]} */
export function captureConsole() {
	const orig = {};
	const logs = [];
	for (const l of LEVELS) {
		orig[l] = console[l];
		console[l] = (...args) => logs.push({ level: l, args, text: args.map((a) => (typeof a === "string" ? a : safe(a))).join(" ") });
	}
	return {
		logs,
		take() {
			return logs.splice(0, logs.length);
		},
		restore() {
			for (const l of LEVELS) console[l] = orig[l];
		},
	};
}
function safe(a) {
	try {
		return String(a?.message ?? a);
	} catch {
		return "?";
	}
}
