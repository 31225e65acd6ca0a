// Imports the public entry points along the behaviours of spec/Import.tla (C29).
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { Worker } from "node:worker_threads";
import { REPO, esbuild } from "../lib/bundle.mjs";
import { runGraph } from "../lib/runner.mjs";
import { scratch } from "../lib/tlc.mjs";

const SRC = {
	index: "src/index.ts", xstate: "src/xstate.ts", redux: "src/redux.ts", mobx: "src/mobx.ts",
	jsxRenderer: "src/renderers/ignite-jsx.ts", litRenderer: "src/renderers/lit.ts",
	jsx: "src/jsx/index.ts", jsxRuntime: "src/jsx/jsx-runtime.ts", jsxDevRuntime: "src/jsx/jsx-dev-runtime.ts",
	vite: "src/config/vite.ts", webpack: "src/config/webpack.ts", load: "src/config/loadIgniteConfig.ts",
};
const WORKER = path.join(path.dirname(fileURLToPath(import.meta.url)), "importWorker.mjs");

class ImportWorld {
	constructor(dir, rng) {
		this.worker = new Worker(WORKER, { workerData: { dir, repo: REPO, variant: { he: rng.int(5), ce: rng.int(5), fixed: rng.int(4) } }, stdout: true, stderr: true });
		this.failure = null;
		this.worker.on("error", (e) => { this.failure = e; this.wake?.({ text: `the process ended: ${e?.message ?? e}`, changed: [] }); });
		this.worker.on("message", (m) => this.wake?.(m));
	}
	async step(a, _pre, post) {
		const out = [];
		const bad = (text) => out.push({ tag: "import", text: `${post.env} DOM, imported ${post.loaded.join(", ") || "nothing"}: ${a.name}(${a.args.join(", ")}): ${text}` });
		const r = await new Promise((resolve) => {
			this.wake = resolve;
			this.worker.postMessage({ name: a.name, args: a.args });
		});
		if (r.text) bad(r.text);
		if (r.changed.length) bad(`changed the globals ${r.changed.join(", ")}`);
		for (const [g, v] of [["he", "HTMLElement"], ["ce", "customElements"]]) {
			if (!r[g]) continue;
			if (post[g] === "maybe" ? r[g] === "user" : r[g] !== post[g]) bad(`${v} is ${r[g]}, expected ${post[g]}`);
		}
		return out;
	}
	async dispose() {
		await this.worker.terminate();
	}
}

export async function runImports(ctx) {
	const dir = scratch("import");
	await esbuild.build({
		entryPoints: Object.fromEntries(Object.entries(SRC).map(([k, v]) => [k, path.join(REPO, v)])),
		bundle: true, splitting: true, format: "esm", platform: "node", packages: "external", outdir: dir, outExtension: { ".js": ".mjs" },
		target: "es2022", logLevel: "silent", absWorkingDir: REPO,
	});
	fs.symlinkSync(path.join(REPO, "node_modules"), path.join(dir, "node_modules"));
	const cov = await runGraph(ctx, {
		spec: {
			module: "Import",
			cfg: { constants: { MaxLoaded: ctx.thorough ? 3 : 2 }, view: "View", actionConstraint: "EmitEdge", invariants: ["DeclarableAfterImport", "UserMeansFound"], properties: ["NeverReplaced"] },
		},
		isInit: (s) => s.env === "unset", kinds: ["worker"], tags: ["import"], walkLen: 25, random: 5, randomLen: 14,
		world: (_k, rng) => new ImportWorld(dir, rng),
	});
	fs.rmSync(dir, { recursive: true, force: true });
	return cov;
}
