#!/usr/bin/env node
// node harness/check.mjs <property id> [--tier quick|thorough]
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";

const ROOT = path.join(path.dirname(fileURLToPath(import.meta.url)), "..");
const id = process.argv[2];
const ti = process.argv.indexOf("--tier");
const tier = ti > 0 ? process.argv[ti + 1] : (process.env.VERIF_TIER ?? "quick");
const seed = Number.parseInt(process.env.VERIF_SEED ?? "1", 10) || 1;
const t0 = Date.now();

const { PROPERTIES } = await import("./registry.mjs");
const prop = PROPERTIES[id];
if (!prop) {
	console.error(`unknown property ${id}`);
	process.exit(2);
}
const known = JSON.parse(fs.readFileSync(path.join(ROOT, "known-findings.json"), "utf8")).findings.filter((f) => f.property === id && f.status === "open");
const seenKnown = new Set();
const violations = [];
let distinct = 0;
const MAX = 1;
const ctx = {
	id, tier, seed, root: ROOT,
	log: (s) => console.log(`[${id}] ${s}`),
	violation(v) {
		for (const k of known) {
			if (k.match && new RegExp(k.match).test(v.key ?? v.text)) {
				seenKnown.add(k);
				return "known";
			}
		}
		violations.push(v);
		return "new";
	},
	done: () => violations.length >= MAX,
	thorough: tier === "thorough",
};
let coverage;
try {
	coverage = await prop.run(ctx);
} catch (e) {
	console.error(e?.stack ?? e);
	process.exit(2);
}
const dir = path.join(ROOT, "evidence");
fs.mkdirSync(dir, { recursive: true });
for (const k of known) {
	if (seenKnown.has(k)) console.log(`KNOWN-FINDING: property=${id} ${k.what}`);
}
fs.writeFileSync(path.join(dir, `${id}.json`), `${JSON.stringify({
	property: id, tier, seed, level: prop.level ?? "model_checking", coverage,
	assumptions: prop.assumptions ?? [], wall_s: (Date.now() - t0) / 1000, violations: violations.length,
}, null, 1)}\n`);
if (violations.length) {
	const file = path.join(dir, `replay-${id}.json`);
	fs.writeFileSync(file, `${JSON.stringify({ property: id, seed, tier, rerun: `VERIF_SEED=${seed} node harness/check.mjs ${id} --tier ${tier}`, ...violations[0] }, null, 1)}\n`);
	console.log(violations[0].text);
	console.log(`VIOLATION property=${id} replay=${file}`);
	process.exit(1);
}
console.log(`[${id}] held (${((Date.now() - t0) / 1000).toFixed(1)}s)`);
process.exit(0);
