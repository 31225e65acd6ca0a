// Helper for a demonstration: bundles ./src of the current directory and installs a jsdom page.
import { createRequire } from "node:module";
import path from "node:path";
import vm from "node:vm";
const cwd = process.cwd();
export const req = createRequire(path.join(cwd, "package.json"));
const tools = createRequire("/opt/veriftools/node/package.json");
export async function load(entries) {
	const esbuild = tools("esbuild");
	const r = await esbuild.build({
		stdin: { contents: `${Object.entries(entries).map(([n, f]) => `export * as ${n} from ${JSON.stringify(path.join(cwd, f))};`).join("\n")}\nexport * as lit from "lit-html";`, resolveDir: cwd, loader: "ts" },
		bundle: true, write: false, format: "cjs", platform: "neutral", mainFields: ["module", "main"], conditions: ["browser", "import", "default"],
		target: "es2022", external: ["xstate", "mobx", "@reduxjs/toolkit", "redux", "node:*"], logLevel: "silent",
	});
	const module = { exports: {} };
	new vm.Script(`(function(module,exports,require){${r.outputFiles[0].text}\n})`).runInThisContext()(module, module.exports, req);
	return module.exports;
}
export function dom() {
	const { JSDOM, VirtualConsole } = req("jsdom");
	const vc = new VirtualConsole();
	const errors = [];
	vc.on("jsdomError", (e) => errors.push(e));
	const d = new JSDOM("<!doctype html><html><head></head><body></body></html>", { virtualConsole: vc, url: "http://localhost/" });
	for (const n of ["window", "document", "HTMLElement", "SVGElement", "Element", "Node", "customElements", "Event", "CustomEvent", "ShadowRoot", "DocumentFragment", "Text", "Comment", "HTMLInputElement"]) {
		Object.defineProperty(globalThis, n, { value: n === "window" ? d.window : d.window[n], configurable: true, writable: true });
	}
	return { window: d.window, document: d.window.document, errors };
}
let failed = 0;
export function check(cond, what) {
	if (!cond) { failed++; console.log(`FAIL: ${what}`); }
}
export function finish() {
	console.log(failed ? "property broken" : "property holds");
	process.exit(failed ? 1 : 0);
}
