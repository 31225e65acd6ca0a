import { runLifecycle } from "./suites/lifecycle.mjs";
import { runRenderer } from "./suites/renderer.mjs";
import { runAdapter } from "./suites/adapter.mjs";
import { runConfig } from "./suites/config.mjs";
const config = (mode) => (ctx) => runConfig(ctx, { mode });
import { runEmit } from "./suites/emit.mjs";
import { runPlugins } from "./suites/plugins.mjs";
import { runInfer } from "./suites/infer.mjs";
import { runRegistration } from "./suites/registration.mjs";
import { runImports } from "./suites/imports.mjs";
import { runRelease, runToken } from "./suites/scripts.mjs";
const plugins = (tags) => (ctx) => runPlugins(ctx, { tags });
const adapter = (tags) => (ctx) => runAdapter(ctx, { tags });
const renderer = (opts) => (ctx) => runRenderer(ctx, opts);
const lifecycle = (opts) => (ctx) => runLifecycle(ctx, opts);
const SH = ["sharedTwo", "shared"];
const NOTE = "Exhaustive over the transition graph of spec/Lifecycle.tla at the stated instance sizes; every transition is replayed into the real code (jsdom) for the source kinds, seeded random walks beyond. Trusts jsdom and the harness; larger instances are sampled, not proved.";
const RNOTE = "The rendering rules (spec/RendererOps.tla) are model-checked exhaustively over all sequences of a small universe of views; every pair of those views and seeded random trees, edits, user input and configurations are run through the real renderer and every recorded step is judged by TLC against the specification. Trusts jsdom's DOM; large trees are sampled.";
const RTECH = "TLA+ specification checked by TLC; recorded runs of the real renderer validated as behaviours of the specification (trace validation), and its state graph replayed";
const ANOTE = "Exhaustive over the transition graph of spec/Adapter.tla (three listeners, re-entrant steps included); every transition is replayed into the real adapters for each source kind, on seeded random states. For changes made from inside a listener only what every listener is told last is specified, not how often it is told.";
const CNOTE = "Exhaustive over the transition graph of spec/Config.tla at the stated sizes; every transition is replayed into the real code (jsdom), style references and module shapes drawn from seeded pools. Warnings are counted, their wording is not checked.";
const FNOTE = "Exhaustive over the sets of existing files and plugin options of spec/ConfigFile.tla, replayed in scratch projects with awkward path names; injected scripts are executed with stand-ins for their imports.";
export const PROPERTIES = {
	C01: { run: lifecycle({ tags: ["view"], configs: ["sharedTwo", "shared", "isolated"], crowds: ["sharedMany", "sharedCrowd", "sharedKeepCrowd", "isolatedCrowd", "isolatedMany"] }) },
	C02: { run: lifecycle({ tags: ["inert"], configs: ["sharedTwo", "sharedKeep", "isolated"], crowds: ["sharedMany", "sharedCrowd", "sharedKeepCrowd", "isolatedCrowd", "isolatedMany"] }) },
	C03: { run: lifecycle({ tags: ["once"], configs: ["sharedTwo", "shared", "isolated"], crowds: ["sharedMany", "sharedCrowd", "sharedKeepCrowd", "isolatedCrowd", "isolatedMany"] }) },
	C04: { run: lifecycle({ tags: ["isolate"], configs: ["isolated"], crowds: ["isolatedCrowd", "isolatedMany"], randomPerKind: 40 }) },
	C05: { run: lifecycle({ tags: ["broadcast"], configs: ["sharedTwo", "shared", "sharedKeep"], crowds: ["sharedMany", "sharedCrowd", "sharedKeepCrowd"] }) },
	C06: { run: lifecycle({ tags: ["teardown"], configs: ["sharedTwo", "shared", "sharedKeep"], crowds: ["sharedMany", "sharedCrowd", "sharedKeepCrowd"], crowdSize: 150 }) },
	C07: { run: lifecycle({ tags: ["revive"], configs: ["sharedTwo", "shared"], crowds: ["sharedMany", "sharedCrowd"] }) },
	C08: { run: lifecycle({ tags: ["teardownIso", "ended"], configs: ["isolated"], crowds: ["isolatedCrowd", "isolatedMany"], randomPerKind: 40 }) },
	C09: { run: lifecycle({ tags: ["send"], configs: ["sharedTwo", "shared", "isolated"], crowds: ["sharedMany", "sharedCrowd", "sharedKeepCrowd", "isolatedCrowd", "isolatedMany"] }) },
	C10: { run: lifecycle({ tags: ["facade"], configs: ["sharedTwo", "shared", "isolated"], crowds: ["sharedMany", "sharedCrowd", "sharedKeepCrowd", "isolatedCrowd", "isolatedMany"] }) },
	C11: { run: lifecycle({ tags: ["commands"], configs: ["sharedTwo", "shared", "isolated"], crowds: ["sharedMany", "sharedCrowd", "sharedKeepCrowd", "isolatedCrowd", "isolatedMany"] }) },
	C12: { run: runEmit, note: "Exhaustive over the transition graph of spec/Emit.tla (arrangements of the elements in light and shadow trees, declared and undeclared types, nested emits); every transition is replayed into the real code (jsdom) with seeded names, details and source kinds." },
	C13: { run: adapter(["deliver"]), note: ANOTE },
	C14: { run: adapter(["stop"]), note: ANOTE },
	C15: { run: renderer({ runs: 1500, len: 2 }), note: RNOTE, technique: RTECH },
	C16: { run: renderer({ runs: 700, len: 10 }), note: RNOTE, technique: RTECH },
	C17: { run: renderer({ runs: 700, len: 10, user: 0.8 }), note: RNOTE, technique: RTECH },
	C18: { run: renderer({ runs: 700, len: 10 }), note: RNOTE, technique: RTECH },
	C19: { run: renderer({ runs: 700, len: 10, optouts: true }), note: RNOTE, technique: RTECH },
	C20: { run: config("styles"), note: CNOTE },
	C21: { run: config("define"), note: CNOTE },
	C22: { run: config("load"), note: CNOTE },
	C23: { run: config("factory"), note: CNOTE },
	C24: { run: plugins(["file"]), note: FNOTE },
	C25: { run: plugins(["vite"]), note: `${FNOTE} Five projects are also served by a real Vite dev server.` },
	C26: { run: plugins(["entry"]), note: "Exhaustive over the entry shapes of spec/WebpackEntry.tla up to two chunks of two modules; every transition is replayed into the real plugin and the entry read the way webpack reads it; loader modules are executed with stand-ins for their imports. webpack itself is not installed here." },
	C27: { run: runInfer, note: "Exhaustive over the transition graph of spec/Infer.tla (every kind of source, entry point and way of naming the adapter, two elements); every transition is replayed into the real code with seeded concrete sources and look-alikes. Sources that satisfy two libraries' interfaces at once, and an explicit adapter that contradicts the source, are outside the property." },
	C28: { run: runRegistration, note: "Exhaustive over the transition graph of spec/Registration.tla (two names, two elements, every renderer shape, elements present before their component included) in both scopes, with valid and invalid facades; every transition is replayed into the real code (jsdom) with seeded concrete renderers and source kinds. Renderers whose render method is replaced after registration are outside the property." },
	C29: { run: runImports, note: "Exhaustive over the transition graph of spec/Import.tla: every entry point, alone and after every other (up to three in the thorough tier), in four environments (no DOM, a DOM, one of its two classes only); each behaviour runs in a fresh worker thread on the current sources, bundled with their module sharing kept. The DOM found there is a stand-in." },
	C30: { run: runRelease, note: "Every behaviour of spec/Release.tla (all options, every failure point and kind) is run through the real script, with stand-ins for git, npm and pnpm that record how they were called. `changeset publish` counts as a real publication whatever its flags, as the installed version ignores --dry-run." },
	C31: { run: runToken, note: "Every behaviour of spec/Token.tla is run through the real function, with stand-ins for npm and fetch. What npm prints is taken to be the token, and the value sent is not encrypted, as in the code." },
};
for (const p of Object.values(PROPERTIES)) p.note ??= NOTE;
