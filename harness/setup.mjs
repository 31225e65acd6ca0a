// Nothing to compile: verify that the tools the checks rely on are there.
import { bundle } from "./lib/bundle.mjs";
import { runTlc } from "./lib/tlc.mjs";
await bundle(["index"]);
const r = await runTlc({ module: "Smoke", cfg: { invariants: ["TypeOK"] }, workers: 1 });
if (!r.ok) { console.error(r.output); process.exit(1); }
console.log("tools present");
