// Runs TLC on a specification in /verif/spec and turns its output into a transition graph.
import { spawn } from "node:child_process";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { fileURLToPath } from "node:url";

export const SPEC_DIR = path.join(path.dirname(fileURLToPath(import.meta.url)), "..", "..", "spec");
const TLA_DIR = "/opt/veriftools/tla";

const tmpdirs = new Set();
export function scratch(prefix) {
	const d = fs.mkdtempSync(path.join(os.tmpdir(), `verif-${prefix}-`));
	tmpdirs.add(d);
	return d;
}
process.on("exit", () => {
	for (const d of tmpdirs) fs.rmSync(d, { recursive: true, force: true });
});
for (const sig of ["SIGINT", "SIGTERM"]) process.on(sig, () => process.exit(3));

/** Render a .cfg from a plain object. */
export function cfgText({ spec = "Spec", constants = {}, invariants = [], properties = [], view, actionConstraint, constraint, postcondition, init, next }) {
	const out = [];
	if (init) out.push(`INIT ${init}`, `NEXT ${next}`);
	else out.push(`SPECIFICATION ${spec}`);
	for (const [k, v] of Object.entries(constants)) {
		if (typeof v === "string" && v.startsWith("<-")) out.push(`CONSTANT ${k} ${v}`);
		else out.push(`CONSTANT ${k} = ${tla(v)}`);
	}
	if (view) out.push(`VIEW ${view}`);
	if (actionConstraint) out.push(`ACTION_CONSTRAINT ${actionConstraint}`);
	if (constraint) out.push(`CONSTRAINT ${constraint}`);
	for (const i of invariants) out.push(`INVARIANT ${i}`);
	for (const p of properties) out.push(`PROPERTY ${p}`);
	if (postcondition) out.push(`POSTCONDITION ${postcondition}`);
	out.push("CHECK_DEADLOCK FALSE");
	return `${out.join("\n")}\n`;
}
export function tla(v) {
	if (typeof v === "boolean") return v ? "TRUE" : "FALSE";
	if (typeof v === "number") return String(v);
	if (typeof v === "string") return JSON.stringify(v);
	if (v instanceof Set) return `{${[...v].map(tla).join(", ")}}`;
	if (Array.isArray(v)) return `<<${v.map(tla).join(", ")}>>`;
	throw new Error(`cannot render ${v}`);
}

/**
 * Run TLC. Lines printed as `"TAG ..."` by the spec are handed to onLine(tag, json).
 * Resolves to {ok, states, distinct, depth, output, seconds}.
 */
export function runTlc({ module, cfg, workers = 4, onLine, env = {}, timeoutMs = 600_000, extraArgs = [], heap = "1g", dfs = false }) {
	const meta = scratch("tlc");
	const cfgFile = path.join(meta, "model.cfg");
	fs.writeFileSync(cfgFile, typeof cfg === "string" ? cfg : cfgText(cfg));
	const args = [
		`-Xmx${heap}`, "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
		`-DTLA-Library=${SPEC_DIR}`, `-Djava.io.tmpdir=${meta}`,
		...(dfs ? ["-Dtlc2.tool.queue.IStateQueue=StateDeque"] : []),
		"-cp", `${TLA_DIR}/tla2tools.jar:${TLA_DIR}/CommunityModules-deps.jar`,
		"tlc2.TLC", "-config", cfgFile, "-metadir", meta, "-workers", String(workers), "-noGenerateSpecTE",
		...extraArgs,
		path.join(SPEC_DIR, `${module}.tla`),
	];
	const t0 = Date.now();
	return new Promise((resolve, reject) => {
		const child = spawn("java", args, { cwd: SPEC_DIR, env: { ...process.env, ...env }, stdio: ["ignore", "pipe", "pipe"] });
		let buf = "";
		const out = [];
		const feed = (line) => {
			if (onLine && line.startsWith('"') && /^"[A-Z]+ /.test(line)) {
				const sp = line.indexOf(" ");
				const tag = line.slice(1, sp);
				let body;
				try {
					body = JSON.parse(JSON.parse(line).slice(tag.length + 1));
				} catch (e) {
					out.push(`[unparsable ${tag}] ${line.slice(0, 300)} ${e.message}`);
					return;
				}
				onLine(tag, body);
				return;
			}
			out.push(line);
		};
		child.stdout.on("data", (d) => {
			buf += d;
			let i;
			while ((i = buf.indexOf("\n")) >= 0) {
				feed(buf.slice(0, i));
				buf = buf.slice(i + 1);
			}
		});
		let err = "";
		child.stderr.on("data", (d) => { err += d; });
		const timer = setTimeout(() => child.kill("SIGKILL"), timeoutMs);
		child.on("error", reject);
		child.on("close", (code, signal) => {
			clearTimeout(timer);
			if (buf) feed(buf);
			fs.rmSync(meta, { recursive: true, force: true });
			tmpdirs.delete(meta);
			const output = out.join("\n");
			const m = /([\d,]+) states generated, ([\d,]+) distinct states found/.exec(output);
			const d = /depth of the complete state graph search is (\d+)/.exec(output);
			resolve({
				ok: code === 0,
				code, signal,
				states: m ? Number(m[1].replaceAll(",", "")) : 0,
				distinct: m ? Number(m[2].replaceAll(",", "")) : 0,
				depth: d ? Number(d[1]) : 0,
				output: output + err,
				seconds: (Date.now() - t0) / 1000,
			});
		});
	});
}

const stable = (v) => {
	if (v === null || typeof v !== "object") return JSON.stringify(v);
	if (Array.isArray(v)) return `[${v.map(stable).join(",")}]`;
	return `{${Object.keys(v).sort().map((k) => `${JSON.stringify(k)}:${stable(v[k])}`).join(",")}}`;
};
export const stableKey = stable;

/** Explore a spec that PrintT()s `EDGE {s,a,t}` records; returns a deterministic graph. */
export async function exploreGraph(opts) {
	const ids = new Map();
	const keys = [];
	const states = [];
	const raw = [];
	const inits = [];
	const idOf = (st) => {
		const k = stable(st);
		let id = ids.get(k);
		if (id === undefined) {
			id = keys.length;
			ids.set(k, id);
			keys.push(k);
			states.push(st);
		}
		return id;
	};
	const res = await runTlc({
		...opts,
		onLine(tag, body) {
			if (tag === "EDGE") raw.push([idOf(body.s), body.a, idOf(body.t)]);
			else if (tag === "INIT") inits.push(idOf(body));
			opts.onLine?.(tag, body);
		},
	});
	if (!res.ok) {
		throw new Error(`TLC rejected ${opts.module}:\n${res.output.slice(-4000)}`);
	}
	// Deterministic renumbering (TLC workers print in any order).
	const order = keys.map((k, i) => [k, i]).sort((a, b) => (a[0] < b[0] ? -1 : 1));
	const renum = new Array(keys.length);
	order.forEach(([, i], n) => { renum[i] = n; });
	const st2 = order.map(([, i]) => states[i]);
	const out = st2.map(() => []);
	const seen = new Set();
	let edges = 0;
	raw.map(([s, a, t]) => [renum[s], a, renum[t], stable(a)])
		.sort((x, y) => x[0] - y[0] || (x[3] < y[3] ? -1 : x[3] > y[3] ? 1 : x[2] - y[2]))
		.forEach(([s, a, t, ak]) => {
			const k = `${s}|${ak}|${t}`;
			if (seen.has(k)) return;
			seen.add(k);
			out[s].push({ s, a, t, id: edges++ });
		});
	return { states: st2, out, edges, inits: [...new Set(inits.map((i) => renum[i]))], tlc: { states: res.states, distinct: res.distinct, depth: res.depth, seconds: res.seconds } };
}

/**
 * Random behaviours of a spec too large to enumerate (TLC -simulate), rebuilt from its EDGE records.
 * Every returned walk is a behaviour of the specification.
 */
export async function simulateWalks({ num, depth, seed, ...opts }) {
	const groups = [];
	let last = null;
	const res = await runTlc({
		...opts,
		workers: 1,
		extraArgs: ["-simulate", `num=${num}`, "-depth", String(depth), "-seed", String(seed)],
		onLine(tag, body) {
			if (tag !== "EDGE") return;
			const k = stable(body.s);
			if (!last || last.k !== k) { last = { k, st: body.s, edges: [] }; groups.push(last); }
			last.edges.push(body);
		},
	});
	if (!res.ok) throw new Error(`TLC rejected ${opts.module}:\n${res.output.slice(-4000)}`);
	const states = [];
	const ids = new Map();
	const idOf = (k, st) => {
		if (!ids.has(k)) { ids.set(k, states.length); states.push(st); }
		return ids.get(k);
	};
	const walks = [];
	let walk = [];
	let edges = 0;
	groups.forEach((g, i) => {
		const next = groups[i + 1]?.k;
		const s = idOf(g.k, g.st);
		let onward = null;
		for (const e of g.edges) {
			const tk = stable(e.t);
			if (tk === g.k) { walk.push({ s, a: e.a, t: s, id: edges++ }); continue; }
			if (tk === next) onward = { s, a: e.a, t: idOf(tk, e.t), id: edges++ };
		}
		if (onward) { walk.push(onward); return; }
		// the end of one behaviour: take any of its last steps
		const e = g.edges[g.edges.length - 1];
		const tk = stable(e.t);
		if (tk !== g.k) walk.push({ s, a: e.a, t: idOf(tk, e.t), id: edges++ });
		if (walk.length) walks.push(walk);
		walk = [];
	});
	return { states, walks, edges, tlc: { states: res.states, distinct: states.length, seconds: res.seconds } };
}
