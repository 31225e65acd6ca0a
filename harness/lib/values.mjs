// Concrete source states for the abstract values 0..NV-1 of the specifications.
const WORDS = ["", "a", "b", "<b>&amp;\"'", "日本 🎌", "x".repeat(300), " padded ", "0", "null", "line\nbreak", "__proto__"];

function leaf(rng) {
	return rng.pick([0, 1, -1, 2, 1.5, 1e21, Number.NaN, Number.POSITIVE_INFINITY, true, false, null, "", ...WORDS]);
}
function value(rng, depth) {
	const k = rng.int(depth > 0 ? 6 : 3);
	if (k < 3) return leaf(rng);
	if (k === 3) return Array.from({ length: rng.int(4) }, () => value(rng, depth - 1));
	if (k === 4) return Array.from({ length: 1 + rng.int(3) }, (_, i) => ({ id: i, done: rng.chance(0.5), label: rng.pick(WORDS) }));
	const o = {};
	for (const key of rng.shuffle(["n", "list", "flag", "meta"]).slice(0, 1 + rng.int(3))) o[key] = value(rng, depth - 1);
	return o;
}
/** A small edit somewhere inside v: the hardest changes to notice. */
function nudge(rng, v) {
	if (Array.isArray(v) && v.length) {
		const r = structuredClone(v);
		const c = rng.int(4);
		if (c === 0) r.push(leaf(rng));
		else if (c === 1) r.pop();
		else if (c === 2) r.reverse();
		else { const i = rng.int(r.length); r[i] = nudge(rng, r[i]); }
		return r;
	}
	if (v && typeof v === "object" && Object.keys(v).length) {
		const r = structuredClone(v);
		const k = rng.pick(Object.keys(r));
		if (rng.chance(0.2)) delete r[k];
		else r[k] = nudge(rng, r[k]);
		return r;
	}
	if (typeof v === "number" && Number.isFinite(v)) return rng.chance(0.3) ? String(v) : v + 1;
	if (typeof v === "string") return rng.chance(0.5) ? `${v}!` : v.slice(0, -1);
	if (typeof v === "boolean") return !v;
	return leaf(rng);
}

/** n pairwise distinct states. style "falsy": exercise 0, "", false, null as whole states. */
export function distinctValues(rng, n, style = rng.pick(["falsy", "simple", "near", "deep", "near"])) {
	const out = [];
	const seen = new Set();
	const push = (v) => {
		const k = show(v);
		if (v === undefined || seen.has(k)) return;
		seen.add(k);
		out.push(v);
	};
	if (style === "falsy") for (const v of rng.shuffle([0, "", false, null, Number.NaN])) if (out.length < n) push(v);
	if (style === "simple") for (let i = 0; out.length < n; i++) push(i);
	if (style === "near") push(value(rng, 3));
	let guard = 0;
	while (out.length < n) {
		if (guard++ > 200) { push(`v${guard}`); continue; }
		push(style === "near" ? nudge(rng, rng.pick(out)) : value(rng, 3));
	}
	return out;
}
/** canonical JSON (keys sorted), so that two equal states always print the same */
export function show(v) {
	if (typeof v === "number" && !Number.isFinite(v)) return String(v);
	if (v === null || typeof v !== "object") return JSON.stringify(v) ?? "undefined";
	if (Array.isArray(v)) return `[${v.map(show).join(",")}]`;
	return `{${Object.keys(v).sort().map((k) => `${JSON.stringify(k)}:${show(v[k])}`).join(",")}}`;
}

/** everything about v that handling it could have changed: keys and their order, attributes, extensibility, contents */
export function look(v, depth = 3) {
	if (v === null || (typeof v !== "object" && typeof v !== "function")) return typeof v === "symbol" ? v.toString() : `${typeof v}:${show(v)}`;
	if (depth === 0 || typeof v === "function" || v.nodeType || typeof v.dispatchEvent === "function") return `${typeof v}${Object.isExtensible(v)}${Object.isFrozen(v)}`;
	const items = v instanceof Map || v instanceof Set ? [...v].map((x) => look(x, depth - 1)).join() : "";
	return `${Object.isExtensible(v)}{${Reflect.ownKeys(v).map((k) => { const d = Object.getOwnPropertyDescriptor(v, k); return `${String(k)}${+!!d.writable}${+d.enumerable}${+d.configurable}${"value" in d && k !== "stack" ? look(d.value, depth - 1) : ""}`; }).join()}${items}}`;
}
