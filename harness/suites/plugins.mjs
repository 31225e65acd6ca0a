// Drives the build plugins along spec/ConfigFile.tla (C24, C25) and spec/WebpackEntry.tla (C26).
import fs from "node:fs";
import path from "node:path";
import { bundle, esbuild, repoRequire, REPO } from "../lib/bundle.mjs";
import { captureConsole } from "../lib/dom.mjs";
import { runGraph } from "../lib/runner.mjs";
import { scratch } from "../lib/tlc.mjs";
import { show } from "../lib/values.mjs";

const DIRS = ["plain", "with space", "quo'te", "dou\"ble", "üñï", "par(en)s", "dollar$1", "per%cent", "at@sign", "..dots", ".hidden", "com,ma", "back`tick", "a&b", "plus+", "MyApp", "Größe", "UPPER.Case", "node_modules", "dist"];
const WDIRS = [...DIRS, "ha#sh", "qu?ery", "semi;colon", "[brackets]", "{braces}"];
const INJECTS = ["head", "head-prepend", "body", "body-prepend"];
const PKG = JSON.parse(fs.readFileSync(path.join(REPO, "package.json"), "utf8"));

// ------------------------------------------------- what a generated module does
const seenScripts = new Map();
let evals = 0;
/**
 * Runs a module with every import replaced by a stand-in.
 * -> {imports: [specifier...], loads: [what the loader given to loadIgniteConfig yields], awaited}
 */
async function evaluate(code) {
	if (seenScripts.has(code)) return seenScripts.get(code);
	const key = `__verif_eval_${evals++}`;
	const log = { imports: [], loads: [], done: 0, helpers: [] };
	globalThis[key] = log;
	let result;
	try {
		const built = await esbuild.build({
			stdin: { contents: code, loader: "js", resolveDir: "/" }, bundle: true, write: false, format: "esm", target: "es2022", logLevel: "silent",
			plugins: [{
				name: "stand-ins",
				setup(b) {
					b.onResolve({ filter: /.*/ }, (a) => (a.kind === "entry-point" ? undefined : { path: a.path, namespace: "standin" }));
					b.onLoad({ filter: /.*/, namespace: "standin" }, (a) => ({
						loader: "js",
						contents: `
							const log = globalThis[${JSON.stringify(key)}];
							log.imports.push(${JSON.stringify(a.path)});
							export const specifier = ${JSON.stringify(a.path)};
							export default { specifier };
							export async function loadIgniteConfig(loader) {
								log.helpers.push(specifier);
								const m = await loader();
								log.loads.push(m && m.specifier);
								await new Promise((r) => setTimeout(r, 0));
								log.done++;
								return m;
							}`,
					}));
				},
			}],
		});
		await import(`data:text/javascript;base64,${Buffer.from(built.outputFiles[0].text).toString("base64")}`);
		result = { ...log, awaited: log.done === log.loads.length && log.done > 0 };
	} catch (e) {
		result = { error: String(e?.message ?? e).slice(0, 300) };
	}
	delete globalThis[key];
	seenScripts.set(code, result);
	return result;
}
const HELPERS = new Set(Object.keys(PKG.exports).filter((k) => k === "." || /loadIgniteConfig/.test(k)).map((k) => path.posix.join("ignite-element", k)));
function helperOk(spec, root) {
	if (HELPERS.has(spec)) return true;
	const m = /^\/@fs\/(.*)$/.exec(spec);
	const file = m ? `/${m[1].replace(/^\/+/, "")}` : null;
	const dist = new Set(Object.values(PKG.exports).flatMap((e) => (typeof e === "string" ? [] : [e.import, e.default])));
	const rel = file && path.relative(path.join(root, "node_modules/ignite-element"), file);
	return Boolean(rel && dist.has(`./${rel}`) && /loadIgniteConfig|ignite-element\.es/.test(rel));
}
/** the file a specifier in an inline script of the project's index.html names */
function fileOf(spec, root) {
	if (typeof spec !== "string") return null;
	if (spec.startsWith("/@fs/")) return path.resolve("/", spec.slice("/@fs/".length));
	if (/^\.\.?\//.test(spec)) return path.resolve(root, spec);
	return null;
}

function normaliseTags(result) {
	if (result === undefined || result === null) return [];
	if (typeof result === "string") return [{ html: result }];
	if (Array.isArray(result)) return result;
	return result.tags ?? [];
}

let base = null;
class FileWorld {
	constructor(lib, kind, rng) {
		this.rng = rng;
		this.kind = kind;
		base ??= scratch("plugins");
		this.dir = fs.mkdtempSync(path.join(base, "w-"));
		this.root = path.join(this.dir, rng.pick(DIRS));
		this.other = path.join(this.dir, "elsewhere");
		fs.mkdirSync(this.root, { recursive: true });
		fs.mkdirSync(this.other, { recursive: true });
		this.where = {
			ts: path.join(this.root, "ignite.config.ts"), js: path.join(this.root, "ignite.config.js"), mjs: path.join(this.root, "ignite.config.mjs"), cjs: path.join(this.root, "ignite.config.cjs"),
			rel: path.join(this.root, rng.pick(["config", "src/app", "deep/er", "..odd", "Config/Ignite", "a/b/c/d/e", "..."]), rng.pick(["ignite.config.ts", "my ignite.js", "ignite.config.prod.mjs", "Ignite.Config.ts", "config.mts", "noextension"])),
			dot: path.join(this.root, rng.pick([".config", ".ignite/x"]), "ignite.config.ts"),
			abs: path.join(this.root, "absolute", rng.pick(["ignite.config.js", "c.ts"])),
			out: path.join(this.other, rng.pick(["ignite.config.ts", "shared.mjs"])),
			missing: path.join(this.root, "no", "such.ts"),
		};
		// files that are not a config
		for (const n of rng.shuffle(["ignite.config.json", "ignite.conf.ts", "ignite.config.tsx", "ignite.config", "src/ignite.config.ts", "ignite.config.ts.bak", "vite.config.ts", "ignite.config.cts", "ignite.config.mts", "ignite.config.jsx", "ignite.config.yaml", "ignite.config.prod.ts", "Ignite.config.ts", "igniteConfig.ts", ".ignite.config.ts", "config/ignite.config.ts.ts", "public/ignite.config.js"]).slice(0, rng.int(10))) this.put(path.join(this.root, n));
		this.put(path.join(this.other, "ignite.config.js"));
		this.put(path.join(this.dir, "ignite.config.ts"));
		// a working directory with files of the same names
		this.cwd = path.join(this.dir, "cwd");
		fs.mkdirSync(this.cwd, { recursive: true });
		for (const f of Object.values(this.where)) {
			const rel = path.relative(this.root, f);
			if (!rel.startsWith("../") && rng.chance(0.6)) this.put(path.join(this.cwd, rel));
		}
		this.home = process.cwd();
		this.lib = lib;
		this.m = lib.instantiate();
		this.con = captureConsole();
	}
	describe() {
		return { root: this.root, where: this.where };
	}
	put(f) {
		fs.mkdirSync(path.dirname(f), { recursive: true });
		fs.writeFileSync(f, "export default {}\n");
	}
	dispose() {
		this.con.restore();
		fs.rmSync(this.dir, { recursive: true, force: true });
	}
	option(p) {
		if (p === "none") return this.rng.chance(0.2) ? { configPath: undefined } : {};
		const f = this.where[p];
		const rel = path.relative(this.root, f);
		if (p === "abs" || p === "out") return { configPath: f };
		if (p === "rel" && this.rng.chance(0.3)) return { configPath: f };
		return { configPath: this.rng.pick([rel, `./${rel}`]) };
	}
	async step(a) {
		if (this.rng.chance(0.5)) return this.take(a);
		process.chdir(this.rng.pick([this.cwd, this.cwd, this.other, this.root]));
		try {
			return await this.take(a);
		} finally {
			process.chdir(this.home);
		}
	}
	async take(a) {
		const out = [];
		const say = (tag) => (text) => out.push({ tag, text: `${a.name}(${a.args.join(", ")}): ${text}` });
		const file = say("file");
		const script = say("vite");
		const [x, y, z] = a.args;
		this.con.take();
		if (a.name === "Write") { this.put(this.where[x]); return out; }
		if (a.name === "Delete") { fs.rmSync(this.where[x]); return out; }
		const want = a.used === "none" ? null : this.where[a.used];
		if (a.name === "Webpack") {
			const entry = this.rng.pick(["./src/index.js", ["./a.js", "./b.js"], { main: "./src/index.js" }, undefined, { main: {} }]);
			const compiler = { context: this.root, options: { ...(entry === undefined && this.rng.chance(0.5) ? {} : { entry: structuredClone(entry) }), mode: "development" } };
			const opts = show(compiler.options);
			try {
				new this.m.webpack.IgniteConfigWebpackPlugin(this.option(x)).apply(compiler);
			} catch (e) { file(`threw ${e.message}`); return out; }
			const now = compiler.options.entry;
			if (!want) { if (show(compiler.options) !== opts) file(`the options became ${show(compiler.options)} although there is no config`); return out; }
			const first = JSON.stringify(now) === JSON.stringify(entry) ? null : Array.isArray(now) ? now[0] : Array.isArray(now.main) ? now.main[0] : now.main.import[0];
			const r = first && (await runLoader(first));
			if (r?.loads?.[0] !== want) file(`loads ${show(r)}, expected ${want}`);
			return out;
		}
		let plugin;
		let pos;
		let results = [];
		try {
			const opts = { ...this.option(x), ...(y === "hook" ? {} : { root: this.root }), ...(z === "default" ? (this.rng.chance(0.2) ? { injectTo: undefined } : {}) : { injectTo: this.rng.pick(INJECTS) }) };
			pos = opts.injectTo ?? "head-prepend";
			plugin = this.m.vite.igniteConfigVitePlugin(opts);
			plugin = Array.isArray(plugin) ? plugin[0] : plugin;
			const hook = (h) => (typeof h === "function" ? h : h?.handler);
			if (y !== "option" || this.rng.chance(0.5)) await hook(plugin.configResolved)?.call({}, { root: y === "both" ? this.other : this.root, command: "serve", plugins: [], build: {} });
			const pages = this.rng.chance(0.1) ? 12 : 1 + this.rng.int(4);
			for (let i = 0; i < pages; i++) {
				const page = this.rng.pick(["index.html", "index.html", "about.html", "admin/index.html", "a b.html"]);
				results.push(await hook(plugin.transformIndexHtml).call({}, this.rng.pick(["<html><head></head><body></body></html>", "<!doctype html><p>", "", `<html><head><script type="module" src="/src/main.ts"></script></head></html>`]), { path: `/${page}`, filename: path.join(this.root, page), originalUrl: `/${page}?x=1` }));
			}
		} catch (e) { file(`threw ${e.stack ?? e}`); return out; }
		const warned = this.con.take().some((l) => l.level === "warn");
		if (a.warn && !warned) script("did not warn that there is no config");
		for (const res of results) {
			const tags = normaliseTags(res);
			if (!want) {
				if (tags.length) (x === "none" ? file : file)(`injected ${show(tags)} although there is no config`);
				continue;
			}
			if (tags.length !== 1) { script(`injected ${tags.length} tags`); file(`no config was used, expected ${want}`); continue; }
			const t = tags[0];
			if (t.tag !== "script" || t.attrs?.type !== "module" || typeof t.children !== "string") { script(`injected ${show(t)}`); continue; }
			if (t.injectTo !== (a.pos === "given" ? pos : a.pos)) script(`injected to ${t.injectTo}, expected ${a.pos === "given" ? pos : a.pos}`);
			const r = await evaluate(t.children);
			if (r.error) { script(`the script fails: ${r.error}`); continue; }
			if (r.loads.length !== 1) script(`applied ${r.loads.length} configs`);
			for (const h of r.helpers) if (!helperOk(h, this.root)) script(`loadIgniteConfig comes from ${h}`);
			const f = fileOf(r.loads[0], this.root);
			if (f === null) script(`the config is imported as ${show(r.loads[0])}, which does not resolve`);
			else if (f !== want) { file(`the config used is ${f}, expected ${want}`); script(`imports ${f}, expected ${want}`); }
			if (!r.awaited) script("does not wait for the config to be applied");
		}
		return out;
	}
}

async function runLoader(spec) {
	const m = /^data:text\/javascript(?:;charset=[^,;]*)?(;base64)?,([\s\S]*)$/.exec(String(spec));
	if (!m) return { error: `not an inline module: ${String(spec).slice(0, 80)}` };
	return evaluate(m[1] ? Buffer.from(m[2], "base64").toString() : decodeURIComponent(m[2]));
}

let entryRoots = null;
class EntryWorld {
	constructor(lib, kind, rng) {
		this.rng = rng;
		if (!entryRoots) {
			const d = scratch("webpack");
			entryRoots = WDIRS.map((n) => {
				const has = path.join(d, n, "has");
				const not = path.join(d, n, "not");
				fs.mkdirSync(has, { recursive: true });
				fs.mkdirSync(not, { recursive: true });
				fs.writeFileSync(path.join(has, "ignite.config.ts"), "export default {}\n");
				return { has, not };
			});
		}
		this.roots = rng.pick(entryRoots);
		this.m = lib.instantiate();
		this.names = { m1: rng.pick(["./src/index.js", "./a b.js", "lodash", "data:text/javascript,1"]), m2: rng.pick(["./second.ts", "./src/index.js?x", "/abs/x.js"]), m3: "./third.js", "./src": "./src" };
		// each of m2 and m3 may stand for several modules of an array
		this.many = { m1: ["m1"], m2: ["m2"], m3: ["m3"], "./src": ["./src"] };
		for (const k of ["m2", "m3"]) {
			if (!rng.chance(0.3)) continue;
			const more = Array.from({ length: 1 + rng.int(8) }, (_, i) => `${k}.${i}`);
			for (const x of more) this.names[x] = rng.pick([`./${x}.js`, `pkg-${x}`, "core-js/stable", "webpack-hot-middleware/client?reload=true", "data:text/javascript,2"]);
			this.many[k].push(...more);
		}
		this.chunkNames = { main: "main", zeta: rng.pick(["zeta", "import", "app.page", "worker", "service-worker", "polyfills", "ignite", "config", "runtime~x"]), alpha: rng.pick(["alpha", "_a", "__app", "vendor", "index", "shared", "sw", "styles", "constructor"]) };
		this.optsOf = {};
		this.same = rng.chance(0.5) ? new this.m.webpack.IgniteConfigWebpackPlugin() : null;
	}
	describe() {
		return { root: this.roots.has, modules: this.names, chunks: this.chunkNames };
	}
	dispose() {}
	chunk(name, c) {
		const mods = c.mods.flatMap((x) => this.many[x]).map((x) => this.names[x]);
		const extra = c.opts ? this.rng.pick([{ dependOn: "shared" }, { filename: "[name].x.js", runtime: "r" }, { layer: "l", library: { type: "module", name: "lib" } }, { dependOn: ["a", "b"], asyncChunks: false }]) : {};
		this.optsOf[name] = extra;
		switch (c.form) {
			case "string": return mods[0];
			case "array": return mods;
			case "desc-string": return this.rng.chance(0.5) ? { import: mods[0], ...extra } : { ...extra, import: mods[0] };
			case "desc-array": return this.rng.chance(0.5) ? { import: mods, ...extra } : { ...extra, import: mods };
			case "desc-empty": return { ...extra };
			default: throw new Error(c.form);
		}
	}
	write(e) {
		if (e.kind === "none") return undefined;
		const value = () => (e.kind === "lone" ? this.chunk("main", e.chunks[0].chunk) : Object.fromEntries(e.chunks.map(({ name, chunk }) => [this.chunkNames[name], this.chunk(this.chunkNames[name], chunk)])));
		if (e.wrap === "plain") return value();
		const v = value();
		this.calls = 0;
		const err = (this.err = new Error("no entry today"));
		if (e.wrap === "throws") return this.rng.chance(0.5) ? () => { throw err; } : () => Promise.reject(err);
		return e.wrap === "sync" ? () => { this.calls++; return structuredClone(v); } : async () => { this.calls++; await null; return structuredClone(v); };
	}
	async step(a) {
		const out = [];
		const bad = (text) => out.push({ tag: "entry", text: `${a.name}(${a.args.map((x) => (typeof x === "object" ? show(x) : x)).join(", ")}): ${text}` });
		if (a.name === "Configure") {
			this.entry = this.write(a.args[0]);
			this.compiler = { context: "", options: { entry: this.entry, mode: "production", output: { path: "/x" } } };
			return out;
		}
		if (a.name === "Apply") {
			const before = this.compiler.options.entry;
			const shown = typeof before === "function" ? null : show(before);
			// another build of the same configuration, elsewhere
			if (this.rng.chance(0.3)) new this.m.webpack.IgniteConfigWebpackPlugin().apply({ context: this.rng.pick(entryRoots).has, options: { entry: before } });
			this.compiler.context = a.args[0] ? this.roots.has : this.roots.not;
			try {
				(this.same ?? new this.m.webpack.IgniteConfigWebpackPlugin()).apply(this.compiler);
			} catch (e) { bad(`threw ${e.stack}`); return out; }
			if (show({ ...this.compiler.options, entry: 0 }) !== show({ mode: "production", output: { path: "/x" }, entry: 0 })) bad("changed other options");
			if (!a.args[0] && (typeof before === "function" ? this.compiler.options.entry !== before : show(this.compiler.options.entry) !== shown)) bad("changed the entry although there is no config file");
		}
		await this.judge(a.result, bad);
		return out;
	}
	async judge(want, bad) {
		let got = this.compiler.options.entry;
		if (want.wrap !== "plain") {
			if (typeof got !== "function") return bad(`a function entry became ${show(got)}`);
			this.calls = 0;
			try {
				got = await got();
			} catch (e) {
				if (want.wrap !== "throws" || e !== this.err) bad(`calling the entry failed: ${e.stack ?? e}`);
				return;
			}
			if (want.wrap === "throws") return bad("the entry function's error was lost");
			if (this.calls !== 1) bad(`called the user's entry function ${this.calls} times`);
		} else if (typeof got === "function") return bad("became a function");
		if (want.kind === "none") { if (got !== undefined) bad(`the missing entry became ${show(got)}`); return; }
		// webpack's own reading of an entry
		const map = typeof got === "string" || Array.isArray(got) ? { main: got } : got;
		const names = want.chunks.map((c) => this.chunkNames[c.name]);
		if (show(Object.keys(map ?? {})) !== show(names)) return bad(`the chunks are ${show(Object.keys(map ?? {}))}, expected ${show(names)}`);
		for (const { name, chunk } of want.chunks) {
			const n = this.chunkNames[name];
			const c = map[n];
			const plain = typeof c === "string" || Array.isArray(c);
			const imp = plain ? c : c.import;
			let mods = typeof imp === "string" ? [imp] : (imp ?? ["./src"]);
			const { import: _i, ...rest } = plain ? {} : c;
			if (show(rest) !== show(this.optsOf[n] ?? {})) bad(`${n}: the options became ${show(rest)}, expected ${show(this.optsOf[n])}`);
			const loader = chunk.mods[0] === "L";
			if (loader) {
				const r = await runLoader(mods[0]);
				if (r.error) { bad(`${n}: does not start with a working loader (${r.error})`); continue; }
				if (r.loads.length !== 1 || r.loads[0] !== path.join(this.roots.has, "ignite.config.ts")) bad(`${n}: the loader loads ${show(r.loads)}`);
				for (const h of r.helpers) if (!HELPERS.has(h)) bad(`${n}: loadIgniteConfig comes from ${h}`);
				if (!r.awaited) bad(`${n}: the entry does not wait for the config`);
				mods = mods.slice(1);
			}
			const exp = chunk.mods.filter((x) => x !== "L").flatMap((x) => this.many[x]).map((x) => this.names[x]);
			if (show(mods) !== show(exp) && !(chunk.form === "any" && show(mods) === show(["./src"]))) bad(`${n}: the modules are ${show(mods)}, expected ${show(exp)}`);
		}
	}
}

export async function runPlugins(ctx, { tags }) {
	const lib = await bundle(["vite", "webpack"]);
	if (tags.includes("entry")) {
		return runGraph(ctx, {
			spec: { module: "WebpackEntry", cfg: { constants: { MaxMods: ctx.thorough ? 3 : 2 }, view: "View", actionConstraint: "Emit", invariants: ["LoaderOnce", "Idempotent"], properties: ["LoaderFirst", "NothingLost"] } },
			isInit: (s) => s.entry.kind === "idle", kinds: ["webpack"], tags, walkLen: 8, random: 500, randomLen: 6,
			world: (kind, rng) => new EntryWorld(lib, kind, rng),
		});
	}
	const cov = await runGraph(ctx, {
		spec: { module: "ConfigFile", cfg: { constants: { Files: new Set(["ts", "js", "mjs", "cjs", "rel", "dot", "abs", "out"].filter((f) => ctx.thorough || f !== "abs")) }, view: "View", actionConstraint: "Emit", properties: ["OnlyExisting", "ExplicitWins", "FirstWins", "NeverMissed"] } },
		isInit: (s) => s.files.length === 0, kinds: ["plugins"], tags, walkLen: 80, random: 10,
		world: (kind, rng) => new FileWorld(lib, kind, rng),
	});
	if (tags.includes("vite") && !ctx.done()) cov.vite_servers = await realVite(ctx, lib);
	return cov;
}

/** The injected script as a real Vite dev server serves and resolves it. */
async function realVite(ctx, lib) {
	const vite = await import(repoRequire.resolve("vite").replace(/index\.cjs$/, "dist/node/index.js"));
	let n = 0;
	const dir = scratch("vite");
	for (const [rel, opts, abs] of [["ignite.config.ts", {}], ["ignite.config.mjs", { injectTo: "body" }], [".config/ignite.config.ts", { configPath: ".config/ignite.config.ts" }], ["conf/my.ts", { configPath: "conf/my.ts" }], ["../outside/ignite.config.ts", { configPath: "../outside/ignite.config.ts" }, true]]) {
		const root = path.join(dir, `p${n++}`, "app");
		const file = path.resolve(root, rel);
		fs.mkdirSync(root, { recursive: true });
		fs.mkdirSync(path.dirname(file), { recursive: true });
		fs.writeFileSync(file, "export default {};\n");
		fs.mkdirSync(path.join(root, "node_modules/ignite-element/dist/config"), { recursive: true });
		fs.writeFileSync(path.join(root, "node_modules/ignite-element/dist/config/loadIgniteConfig.es.js"), "export const loadIgniteConfig = (l) => l();\n");
		fs.writeFileSync(path.join(root, "node_modules/ignite-element/package.json"), JSON.stringify({ ...PKG, scripts: undefined }));
		const server = await vite.createServer({ root, configFile: false, logLevel: "silent", appType: "custom", cacheDir: path.join(dir, "cache"), plugins: [lib.instantiate().vite.igniteConfigVitePlugin(opts)], server: { middlewareMode: true, watch: null, ws: false, hmr: false, fs: { strict: false } }, optimizeDeps: { noDiscovery: true } });
		try {
			const html = await server.transformIndexHtml("/index.html", "<html><head><title>x</title></head><body><p></p></body></html>");
			const say = (text) => ctx.violation({ suite: "vite", kind: rel, text: `Vite with ${rel}: ${text}`, html });
			const scripts = [...html.matchAll(/<script([^>]*)>([\s\S]*?)<\/script>/g)].filter(([, at]) => !/@vite\/client/.test(at));
			if (scripts.length !== 1) { say(`the page has ${scripts.length} scripts`); break; }
			const src = /src="([^"]+)"/.exec(scripts[0][1])?.[1];
			const code = src ? (await server.transformRequest(src.replaceAll("&amp;", "&")))?.code : scripts[0][2];
			const r = await evaluate(code ?? "");
			if (r.error) { say(`the script fails: ${r.error}`); break; }
			const target = await server.pluginContainer.resolveId(r.loads[0], path.join(root, "index.html"));
			const helper = await server.pluginContainer.resolveId(r.helpers[0], path.join(root, "index.html"));
			const real = (p) => { const q = p?.id?.split("?")[0].replace(/^\/@fs\//, "/"); return q && (fs.existsSync(q) ? q : path.join(root, q)); };
			if (real(target) !== file) say(`the config resolves to ${target?.id}, expected ${file}`);
			if (!real(helper)?.endsWith("loadIgniteConfig.es.js")) say(`the helper resolves to ${helper?.id}`);
		} finally {
			await server.close();
		}
		void abs;
		if (ctx.done()) break;
	}
	return n;
}
