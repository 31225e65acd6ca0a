// Regenerates MANIFEST.json from properties.jsonl and the registry (run by hand after edits).
import fs from "node:fs";
import { PROPERTIES } from "../harness/registry.mjs";
const root = new URL("..", import.meta.url).pathname;
const props = fs.readFileSync(`${root}/properties.jsonl`, "utf8").trim().split("\n").map((l) => JSON.parse(l));
const checks = [];
const na = [];
for (const p of props) {
	const r = PROPERTIES[p.id];
	if (!r) { na.push({ property: p.id, reason: "check not built yet; the specification module for this part is being written" }); continue; }
	checks.push({
		property: p.id,
		quick_cmd: `node harness/check.mjs ${p.id}`,
		thorough_cmd: `node harness/check.mjs ${p.id} --tier thorough`,
		evidence_file: `evidence/${p.id}.json`,
		technique: r.technique ?? "TLA+ specification checked by TLC; behaviours of its state graph replayed into the real code",
		level: r.level ?? "model_checking",
		level_note: r.note ?? "",
	});
}
fs.writeFileSync(`${root}/MANIFEST.json`, `${JSON.stringify({
	version: 1,
	setup_cmd: "node harness/setup.mjs",
	checks,
	not_applicable: na,
	notes: "No hooks in /repo: everything is observed through the public API. VERIF_REPO overrides the tree under test during development.",
}, null, 1)}\n`);
