// Bundles the *current working tree* of the repository under test (never dist/) and hands out
// fresh module instances: every trace gets its own evaluation of the code, so module-level state
// (style queues, registries, deny-lists) starts from scratch exactly as on a page load.
import { createRequire } from "node:module";
import path from "node:path";
import vm from "node:vm";

export const REPO = process.env.VERIF_REPO ?? "/repo";
export const repoRequire = createRequire(path.join(REPO, "package.json"));
const toolsRequire = createRequire("/opt/veriftools/node/package.json");

function loadEsbuild() {
	try {
		return toolsRequire("esbuild");
	} catch {
		const viteReq = createRequire(repoRequire.resolve("vite"));
		return viteReq("esbuild");
	}
}

export const esbuild = loadEsbuild();

const EXTERNAL = ["xstate", "mobx", "@reduxjs/toolkit", "redux"];

// Public entry points of the package (package.json "exports") plus the two modules that the
// documentation's deny-list and the repository's own tests reach directly.
const ENTRIES = {
	index: "src/index.ts",
	core: "src/igniteCore/index.ts",
	xstate: "src/xstate.ts",
	redux: "src/redux.ts",
	mobx: "src/mobx.ts",
	jsxRenderer: "src/renderers/ignite-jsx.ts",
	litRenderer: "src/renderers/lit.ts",
	jsx: "src/jsx/jsx-runtime.ts",
	jsxDev: "src/jsx/jsx-dev-runtime.ts",
	vite: "src/config/vite.ts",
	webpack: "src/config/webpack.ts",
	load: "src/config/loadIgniteConfig.ts",
	strategy: "src/renderers/jsx/IgniteJsxRenderStrategy.ts",
	renderer: "src/renderers/jsx/renderer.ts",
	xstateAdapter: "src/adapters/XStateAdapter.ts",
	reduxAdapter: "src/adapters/ReduxAdapter.ts",
	mobxAdapter: "src/adapters/MobxAdapter.ts",
	factory: "src/createComponentFactory.ts",
	injectStyles: "src/injectStyles.ts",
	configFile: "src/plugins/configFile.ts",
	registry: "src/renderers/resolveConfiguredRenderStrategy.ts",
};

const cache = new Map();

/** Build the named entries into one evaluatable script. */
export async function bundle(names = Object.keys(ENTRIES)) {
	const key = names.join(",");
	if (cache.has(key)) return cache.get(key);
	const contents = [
		...names.map(
			(n) => `export * as ${n} from ${JSON.stringify(path.join(REPO, ENTRIES[n]))};`,
		),
		names.includes("litRenderer") ? `export * as lit from "lit-html";` : "",
	].join("\n");
	const result = await esbuild.build({
		stdin: { contents, resolveDir: REPO, sourcefile: "verif-entry.ts", loader: "ts" },
		bundle: true,
		write: false,
		format: "cjs",
		platform: "neutral",
		mainFields: ["module", "main"],
		conditions: ["browser", "import", "default"],
		target: "es2022",
		external: [...EXTERNAL, "node:*"],
		logLevel: "silent",
		tsconfigRaw: { compilerOptions: { useDefineForClassFields: true } },
	});
	const code = result.outputFiles[0].text;
	const script = new vm.Script(
		`(function (module, exports, require) {${code}\n})`,
		{ filename: "ignite-element.bundle.js" },
	);
	const b = {
		code,
		instantiate() {
			const module = { exports: {} };
			script.runInThisContext()(module, module.exports, repoRequire);
			return module.exports;
		},
	};
	cache.set(key, b);
	return b;
}

const CONFIG_SYMBOL = Symbol.for("ignite-element.config");
const REGISTRY_SYMBOL = Symbol.for("ignite-element.renderStrategyRegistry");

/** Forget everything a previous trace left on the realm (as a page reload would). */
export function resetRealm() {
	delete globalThis[CONFIG_SYMBOL];
	delete globalThis[REGISTRY_SYMBOL];
}
