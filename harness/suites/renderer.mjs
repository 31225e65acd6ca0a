// Recorded runs of the real JSX renderer, decided by spec/RendererTrace.tla; small-universe walks
// from spec/RendererMC.tla.
import fs from "node:fs";
import path from "node:path";
import { bundle, resetRealm } from "../lib/bundle.mjs";
import { captureConsole, freshTag, installDom, page, uninstallDom } from "../lib/dom.mjs";
import { hashSeed, makeRng } from "../lib/rng.mjs";
import { exploreGraph, runTlc, scratch } from "../lib/tlc.mjs";
import { coveringWalks } from "../lib/walks.mjs";

// ---------------------------------------------------------------- abstract views
export const T = (text) => ({ k: "text", tag: "", text, props: [], kids: [] });
export const N = (n) => ({ k: "text", tag: "num", text: String(n), props: [], kids: [] });
const E0 = (k, tag = "") => ({ k, tag, text: "", props: [], kids: [] });
export const EL = (tag, props, kids) => ({ k: "el", tag, text: "", props, kids });
export const P = (n, t, v = "", o = []) => ({ n, t, v, o });

const CSS = { color: "color", fontSize: "font-size", opacity: "opacity", zIndex: "z-index", display: "display", marginTop: "margin-top", backgroundColor: "background-color", lineHeight: "line-height", borderTopLeftRadius: "border-top-left-radius", flexGrow: "flex-grow", WebkitLineClamp: "-webkit-line-clamp", textAlign: "text-align", paddingLeft: "padding-left", float: "float" };
const EVENTS = { onClick: "click", onInput: "input", onItemAdded: "item-added", onFocus: "focus", onItemURLChanged: "item-url-changed", onToggle2: "toggle2", onItem2Added: "item2-added", onURLChange: "url-change", onValueChangedTwice: "value-changed-twice", onX: "x", onclick: "click", "on-tap-two": "tap-two", "on:menu": "menu", onRow_added: "row-added" };
const STYLE_VALUES = { color: ["red", "blue", "bad!"], fontSize: ["10px", "12px"], opacity: ["0.5", "1", "0"], zIndex: ["0", "1", "-1"], display: ["none", "block"], marginTop: ["1px", "2px"], backgroundColor: ["black", "white"], "--x": ["1", "a b"], "--fooBar": ["1", "b"], lineHeight: ["2", "3"], borderTopLeftRadius: ["1px", "2px"], flexGrow: ["1", "0"], WebkitLineClamp: ["2", "3"], textAlign: ["center", "left"], paddingLeft: ["1px", "4px"], float: ["left", "right"], "padding-left": ["2px"] };
const TEXTS = ["a", "b", "c", "", "<b>x</b>", "&amp;", "日本 🎌", "  sp  ", "0", "undefined", "long ".repeat(40), "\n", "'\"`${x}", "a|t:b", "|", ",", "t:a", "e::p:", "\u00a0", "\r\n", "null", "ignite-empty", "--><i>"];
const HTML_TAGS = ["div", "p", "span", "ul", "li", "button", "section", "x-plain", "h1", "em", "slot", "article"];
const STR_PROPS = ["title", "id", "lang", "data-k", "aria-label", "role", "custom", "data-camelCase", "aria-hidden", "itemprop"].filter((n) => n === n.toLowerCase());
const SVG_KEBAB = ["strokeWidth", "fillOpacity", "textAnchor", "clipPath", "dataFoo", "dataItemId", "ariaLabel", "strokeLinecap", "strokeDasharray", "stopColor", "fontFamily", "dominantBaseline", "pointerEvents", "colorInterpolationFilters", "vectorEffect", "markerEnd", "floodOpacity", "shapeRendering", "dataURLPath", "ariaValueNow", "data_row"];
const SVG_PLAIN = ["fill", "stroke", "d", "r", "cx", "x1", "y2", "points", "transform", "offset", "stroke-width2", "data-z", "id", "xlink:href", "xml:lang", "stroke-linejoin", "in2"];
const SVG_CAMEL = ["viewBox", "preserveAspectRatio", "clipPathUnits", "gradientUnits", "patternUnits", "spreadMethod", "startOffset", "textLength", "lengthAdjust", "attributeName", "attributeType", "baseFrequency", "calcMode", "diffuseConstant", "edgeMode", "filterUnits", "glyphRef", "gradientTransform", "kernelMatrix", "kernelUnitLength", "keyPoints", "keySplines", "keyTimes", "limitingConeAngle", "markerHeight", "markerUnits", "markerWidth", "maskContentUnits", "maskUnits", "numOctaves", "pathLength", "patternContentUnits", "patternTransform", "pointsAtX", "pointsAtY", "pointsAtZ", "preserveAlpha", "primitiveUnits", "refX", "refY", "repeatCount", "repeatDur", "requiredExtensions", "requiredFeatures", "specularConstant", "specularExponent", "stdDeviation", "stitchTiles", "surfaceScale", "systemLanguage", "tableValues", "targetX", "targetY", "viewTarget", "xChannelSelector", "yChannelSelector", "zoomAndPan"];
// props that belong to certain elements: [name, [type, value]...]; none of the values is the element's default
const S = (...v) => v.map((x) => ["str", x]);
const NUM = (...v) => v.map((x) => ["num", String(x)]);
const YES = [["true", "true"]];
const TYPED = {
	img: [["alt", S("p", "q")], ["src", S("/a.png", "b.png")], ["width", NUM(5, 7)], ["height", NUM(3)], ["crossOrigin", S("anonymous", "use-credentials")], ["isMap", YES], ["useMap", S("#m")], ["loading", S("lazy")]],
	a: [["href", S("/a", "#b", "http://h/c")], ["rel", S("x", "noopener")], ["target", S("_blank", "t")], ["download", S("f")], ["hreflang", S("en")]],
	td: [["colSpan", NUM(2, 3)], ["rowSpan", NUM(2, 4)], ["headers", S("h")]],
	th: [["scope", S("row", "col")], ["abbr", S("x")], ["colSpan", NUM(2, 3)]],
	time: [["dateTime", S("2020", "2021-01")]],
	del: [["dateTime", S("2020")], ["cite", S("/c")]],
	form: [["acceptCharset", S("utf-8", "latin1")], ["noValidate", YES], ["action", S("/x")], ["method", S("post")], ["name", S("n")], ["autocomplete", S("off")]],
	button: [["value", S("v", "w")], ["name", S("n")], ["disabled", YES], ["type", S("button", "reset")], ["formNoValidate", YES]],
	ol: [["start", NUM(3, 4)], ["reversed", YES]],
	li: [["value", NUM(3, 4, 0)]],
	meter: [["value", NUM(0.5, 0)], ["low", NUM(0.25)], ["max", NUM(2)]],
	details: [["open", YES]],
	progress: [["value", NUM(0.5, 0.25, 0)], ["max", NUM(2)]],
	fieldset: [["disabled", YES], ["name", S("n")]],
	label: [["htmlFor", S("i1", "i2")]],
	output: [["name", S("o")]],
	video: [["controls", YES], ["loop", YES], ["autoplay", YES], ["poster", S("/p")], ["preload", S("none")]],
	meta: [["httpEquiv", S("refresh")], ["content", S("1")], ["name", S("m")]],
	data: [["value", S("d", "e")]],
	slot: [["name", S("s1", "s2")]],
	textarea: [["rows", NUM(3, 5)], ["cols", NUM(4)], ["wrap", S("hard")], ["placeholder", S("p")], ["disabled", YES], ["name", S("n")]],
	select: [["name", S("n")], ["disabled", YES], ["required", YES]],
};
const TYPED_TAGS = ["img", "td", "th", "time", "del", "form", "ol", "li", "details", "progress", "meter", "fieldset", "output", "video", "meta", "data", "button"];
const INPUT_TYPED = [["placeholder", S("p", "q")], ["maxLength", NUM(9, 8)], ["minLength", NUM(1, 2)], ["name", S("n")], ["pattern", S("x+")], ["autocomplete", S("off")], ["size", NUM(3)], ["disabled", YES], ["readOnly", YES], ["required", YES], ["form", S("f1")], ["list", S("l1")], ["min", S("1")], ["max", S("8")], ["step", S("2")], ["accept", S("a/b")]];
const GLOBAL_TYPED = [["dir", S("rtl")], ["accessKey", S("k", "j")], ["draggable", YES], ["slot", S("s", "t")], ["contentEditable", S("true")], ["spellcheck", S("true")], ["inputMode", S("numeric")], ["ariaLabel", S("l", "m")], ["ariaChecked", S("true", "mixed")], ["tabindex", S("3")]];
const VOID = new Set(["img", "meta", "input"]);

// names for one and the same attribute: an element carries at most one of them
const ALIASES = [["class", "className"], ["aria-label", "ariaLabel"], ["tabIndex", "tabindex"], ["onClick", "onclick"]];

const optionValue = (o) => o.props.find((p) => p.n === "value" && p.t === "str")?.v ?? o.kids[0].text;

export class Gen {
	constructor(rng, opts = {}) {
		this.rng = rng;
		this.fresh = 0;
		this.inputKind = rng.pick(["text", "text", "checkbox"]);
		this.o = { depth: 3, width: 4, ...opts };
	}
	val() {
		const r = this.rng;
		return r.pick([["str", r.pick(["x", "y", "", "z w", "<i>", "é"])], ["num", String(r.pick([0, 1, 2.5, -1]))], ["true", "true"], ["str", "x"]]);
	}
	maybe(name, typed) {
		const [t, v] = typed ?? this.val();
		return this.rng.chance(0.15) ? P(name, "absent", this.rng.pick(["false", "null", "undefined"])) : P(name, t, v);
	}
	style() {
		const r = this.rng;
		const names = r.shuffle(Object.keys(STYLE_VALUES)).slice(0, r.int(4));
		const o = names.map((n) => [n, r.chance(0.15) ? "~" : r.pick(STYLE_VALUES[n])]);
		if (r.chance(0.12)) return P("style", "absent", r.pick(["null", "undefined", "false"]));
		if (r.chance(0.3)) {
			const oo = o.filter((e) => e[1] !== "~" && e[1] !== "bad!").map(([n, v]) => [CSS[n] ?? n, v]);
			return P("style", "sstr", oo.map(([n, v]) => `${n}: ${v}`).join("; "), oo);
		}
		return P("style", "sobj", "", o);
	}
	handler(name) {
		const r = this.rng;
		if (r.chance(0.15)) return P(name, "absent", r.pick(["null", "undefined", "false"]));
		return P(name, "fn", r.chance(0.5) ? `h${r.int(3)}` : `f${this.fresh++}`);
	}
	commonProps(tag, svg) {
		const r = this.rng;
		const ps = [];
		if (r.chance(0.35)) ps.push(r.chance(0.5) ? this.maybe("class", ["str", r.pick(["", "a", "a b", "x-1"])]) : this.maybe("className", ["str", r.pick(["", "a", "c d"])]));
		if (r.chance(0.3)) ps.push(this.style());
		if (r.chance(0.35)) for (const n of r.shuffle(Object.keys(EVENTS)).slice(0, 1 + r.int(2))) if (!ALIASES.some((a) => a.includes(n) && ps.some((p) => a.includes(p.n)))) ps.push(this.handler(n));
		if (svg) {
			const names = new Set(Array.from({ length: r.int(4) }, () => r.pick(r.pick([SVG_KEBAB, SVG_PLAIN, SVG_CAMEL]))));
			for (const n of names) ps.push(this.maybe(n));
			if (tag === "svg" && !names.has("viewBox") && r.chance(0.6)) ps.push(this.maybe("viewBox", ["str", r.pick(["0 0 1 1", "0 0 2 2"])]));
		} else {
			for (const n of r.shuffle(STR_PROPS).slice(0, r.int(3))) ps.push(this.maybe(n));
			if (r.chance(0.12)) ps.push(this.maybe("hidden", ["true", "true"]));
			const own = tag === "input" ? INPUT_TYPED : TYPED[tag];
			if (own) for (const [n, vs] of own) if (r.chance(tag === "input" ? 0.08 : 0.35)) ps.push(this.maybe(n, r.pick(vs)));
			if (tag !== "x-plain" && tag !== "x-host") {
				if (r.chance(0.1)) ps.push(this.maybe("tabIndex", ["num", String(r.int(3))]));
				else if (r.chance(0.12)) { const [n, vs] = r.pick(GLOBAL_TYPED); if (!ALIASES.some((a) => a.includes(n) && ps.some((p) => a.includes(p.n)))) ps.push(this.maybe(n, r.pick(vs))); }
			}
		}
		return r.shuffle(ps);
	}
	leaf() {
		const r = this.rng;
		switch (r.int(8)) {
			case 0: return E0("empty", r.pick(["null", "undefined", "false", "true"]));
			case 1: return r.chance(0.2) ? E0("unk") : T(r.pick(TEXTS));
			case 2: return N(r.pick([0, 1, -1, 1.5, 42, 1e21, Number.NaN]));
			default: return T(r.pick(TEXTS));
		}
	}
	input() {
		const r = this.rng;
		const ps = this.commonProps("input", false);
		if (this.inputKind === "checkbox") {
			ps.push(P("type", "str", "checkbox"));
			if (r.chance(0.7)) ps.push(this.maybe("checked", ["true", "true"]));
			if (r.chance(0.3)) ps.push(this.maybe("value", ["str", r.pick(["c1", "c2"])]));
		} else {
			if (r.chance(0.75)) ps.push(this.maybe("value", r.pick([["str", r.pick(["", "v1", "v2", "v3"])], ["num", String(r.int(3))]])));
		}
		return EL("input", ps, []);
	}
	el(depth, svg) {
		const r = this.rng;
		if (svg) {
			const tag = r.pick(["g", "path", "circle", "foreignObject", "linearGradient", "text", "a", "textPath", "svg", "title"]);
			return EL(tag, this.commonProps(tag, true), this.kids(depth - 1, tag !== "foreignObject"));
		}
		switch (r.int(14)) {
			case 0: case 1: return this.input();
			case 2: return EL("textarea", [...this.commonProps("textarea", false), ...(r.chance(0.7) ? [this.maybe("value", ["str", r.pick(["", "t1", "t2"])])] : [])], []);
			case 3: {
				const opts = ["a", "b", "c", "d"].slice(0, 1 + r.int(4));
				return EL("select", [...this.commonProps("select", false), ...this.choice(opts)], opts.map((o) => this.option(o)));
			}
			case 4: return EL("label", [...this.commonProps("label", false), ], this.kids(depth - 1, false));
			case 5: return EL("svg", this.commonProps("svg", true), this.kids(depth - 1, true));
			case 6: return EL("a", this.commonProps("a", false), this.kids(depth - 1, false));
			case 7: return EL("x-host", [...this.commonProps("x-host", false), ...this.hostProps()], []);
			case 8: case 9: { const tag = r.pick(TYPED_TAGS); return EL(tag, this.commonProps(tag, false), VOID.has(tag) ? [] : this.kids(depth - 1, false)); }
			default: { const tag = r.pick(HTML_TAGS); return EL(tag, this.commonProps(tag, false), this.kids(depth - 1, false)); }
		}
	}
	/** the value of a select, if it is given one */
	choice(opts) {
		return this.rng.chance(0.85) ? [this.rng.chance(0.1) ? P("value", "absent", "null") : P("value", "str", this.rng.pick(opts))] : [];
	}
	/** an option says its value, or its text is the value */
	option(o) {
		const r = this.rng;
		if (r.chance(0.6)) return EL("option", [P("value", "str", o)], [T(r.chance(0.3) ? o : o.toUpperCase())]);
		return EL("option", r.chance(0.5) ? [] : [P("value", "absent", r.pick(["null", "undefined", "false"]))], [T(o)]);
	}
	/** properties of a custom element: any value, objects by identity */
	hostProps() {
		const r = this.rng;
		const any = () => r.pick([["str", "s"], ["num", "7"], ["str", "7"], ["num", "0"], ["str", "true"], ["true", "true"], ["str", ""], ["obj", `o${r.int(2)}`], ["obj", `x${this.fresh++}`]]);
		const ps = [];
		if (r.chance(0.7)) ps.push(this.maybe("payload", any()));
		if (r.chance(0.35)) ps.push(this.maybe("value", any()));
		return ps;
	}
	node(depth, svg) {
		const r = this.rng;
		if (depth <= 0 || r.chance(0.3)) return this.leaf();
		if (r.chance(0.15)) return { ...E0(r.pick(["frag", "comp", "arr"])), kids: this.kids(depth - 1, svg) };
		return this.el(depth, svg);
	}
	kids(depth, svg) {
		const n = this.o.wide && depth === this.o.depth - 1 ? 6 + this.rng.int(30) : this.rng.int(this.o.width);
		return Array.from({ length: n }, () => this.node(depth, svg));
	}
	root() {
		const r = this.rng;
		const x = r.int(10);
		if (x < 6) return this.el(this.o.depth, false);
		if (x < 9) return { ...E0(r.pick(["frag", "arr", "comp"])), kids: this.kids(this.o.depth, false) };
		return this.leaf();
	}
	/** a long list of small items, and edits of it */
	list() {
		const r = this.rng;
		const item = () => r.pick([
			() => EL("li", [], [T(r.pick(TEXTS))]),
			() => EL("li", [P("data-k", "str", `k${this.fresh++}`)], [T(`${this.fresh}`), this.input()]),
			() => EL("li", [this.handler("onClick")], [N(r.int(50))]),
			() => T(`t${r.int(40)}`),
			() => E0("empty", "null"),
		])();
		return EL("ul", [], Array.from({ length: 2 + r.int(r.pick([10, 30, 60])) }, item));
	}
	editList(v) {
		const r = this.rng;
		const k = [...v.kids];
		const at = () => r.int(k.length);
		switch (r.int(9)) {
			case 0: { const i = at(), j = at(); [k[i], k[j]] = [k[j], k[i]]; break; }
			case 1: { const i = at(); k.push(...k.splice(0, i)); break; }
			case 2: k.reverse(); break;
			case 3: k.splice(at(), 1); break;
			case 4: k.splice(at(), 0, ...this.list().kids.slice(0, 2)); break;
			case 5: k.push(...this.list().kids.slice(0, 1 + r.int(4))); break;
			case 6: k.length = Math.max(1, k.length - 1 - r.int(3)); break;
			default: for (let n = r.int(3); n >= 0; n--) { const i = at(); k[i] = this.mutate(k[i], false, false); }
		}
		return { ...v, kids: k.length ? k : [T("none")] };
	}
	/** an edit of v: same shape with different values, or a structural change */
	mutate(v, svg = false, top = true) {
		const r = this.rng;
		if (top && r.chance(0.06)) return this.root();
		const w = { ...v, props: v.props, kids: v.kids };
		if (v.k === "text") return r.chance(0.6) ? this.leafLike(v) : (r.chance(0.8) ? v : this.leaf());
		if (v.k === "empty" || v.k === "unk") return r.chance(0.2) ? this.leaf() : v;
		const inner = v.k === "el" ? (v.tag === "svg" || (svg && v.tag !== "foreignObject")) : svg;
		if (v.k === "el" && r.chance(0.5)) w.props = this.mutateProps(v, v.tag === "svg" || svg);
		if (v.tag === "select") {
			if (r.chance(0.4)) {
				const opts = ["a", "b", "c", "d", "e"].slice(r.chance(0.2) ? 1 : 0, 2 + r.int(4));
				const cur = w.props.find((p) => p.n === "value" && p.t !== "absent")?.v;
				w.kids = opts.map((o) => this.option(o));
				if (cur !== undefined && !opts.includes(cur)) w.props = [...w.props.filter((p) => p.n !== "value"), P("value", "str", r.pick(opts))];
			}
			return w;
		}
		if (["input", "textarea", "x-host", "option", "img", "meta"].includes(v.tag) && !svg) return w;
		let kids = v.kids.map((k) => (r.chance(0.6) ? this.mutate(k, inner, false) : k));
		const s = r.int(14);
		if (s === 0) kids = [...kids, this.node(1, inner)];
		else if (s === 1) kids = kids.slice(0, -1);
		else if (s === 2) kids = r.shuffle(r.chance(0.5) ? kids : v.kids);
		else if (s === 6 || (s > 10 && v.kids.length > 9)) { const j = r.int(v.kids.length + 1); kids = [...v.kids.slice(j), ...v.kids.slice(0, j)]; }
		else if (s === 3 && kids.length) { const j = r.int(kids.length); kids = [...kids.slice(0, j), ...kids.slice(j + 1)]; }
		else if (s === 4) { const j = r.int(kids.length + 1); kids = [...kids.slice(0, j), this.node(1, inner), ...kids.slice(j)]; }
		else if (s === 5 && kids.length) { const j = r.int(kids.length); kids = [...kids]; kids[j] = this.node(2, inner); }
		w.kids = kids;
		return w;
	}
	leafLike() {
		return this.rng.chance(0.7) ? T(this.rng.pick(TEXTS)) : N(this.rng.int(5));
	}
	mutateProps(v, svg) {
		const r = this.rng;
		const model = v.tag === "input" ? this.input() : v.tag === "select"
			? EL("select", [...this.commonProps("select", false), ...this.choice(v.kids.map(optionValue))], [])
			: v.tag === "textarea" ? EL("textarea", [...this.commonProps("textarea", false), this.maybe("value", ["str", r.pick(["", "t1", "t2"])])], [])
				: v.tag === "x-host" ? EL(v.tag, [...this.commonProps(v.tag, false), ...this.hostProps()], [])
							: v.tag === "option" ? v
								: EL(v.tag, this.commonProps(v.tag, svg), []);
		if (r.chance(0.5)) return model.props;
		// keep most, change one or two
		const by = new Map(v.props.map((p) => [p.n, p]));
		for (const p of r.shuffle(model.props).slice(0, 1 + r.int(2))) {
			for (const alias of ALIASES) if (alias.includes(p.n)) for (const a of alias) by.delete(a);
			by.set(p.n, p);
		}
		if (r.chance(0.3) && v.props.length) {
			const n = r.pick(v.props).n;
			if (n !== "type") by.delete(n);
		}
		return [...by.values()];
	}
}

// ---------------------------------------------------------------- running it
const ABSENT = { false: false, null: null, undefined: undefined };

export class RealRenderer {
	constructor(lib, cfg, rng) {
		this.cfg = cfg;
		this.rng = rng;
		resetRealm();
		this.savedFlag = process.env.IGNITE_DIFF_ENABLED;
		if (cfg.flag === "off") process.env.IGNITE_DIFF_ENABLED = "false";
		else if (cfg.flag === "on") process.env.IGNITE_DIFF_ENABLED = this.rng.pick(["true", "1", "on"]);
		else delete process.env.IGNITE_DIFF_ENABLED;
		this.con = captureConsole();
		this.m = lib.instantiate();
		const c = {};
		if (cfg.mode) c.strategy = cfg.mode;
		if (cfg.logging) c.logging = cfg.logging;
		if (Object.keys(c).length) this.m.index.defineIgniteConfig(c);
		for (const d of cfg.deny) this.m.strategy.registerNoDiffDenylistTag(this.rng.chance(0.5) ? d : d.toUpperCase());
		this.ids = new WeakMap();
		this.nextId = 1;
		this.fns = new Map();
		this.objs = new Map();
		this.objIds = new Map();
		this.calls = [];
		this.hostTag = freshTag("v-host");
		if (cfg.host === "deny") this.m.strategy.registerNoDiffDenylistTag(this.hostTag);
		this.host = page.document.createElement(this.hostTag);
		if (cfg.host === "nodiff") this.host.setAttribute("data-ignite-nodiff", "");
		if (cfg.host === "hydrated") {
			this.host.setAttribute("data-ignite-hydrated", "");
			if (rng.chance(0.4)) this.host.setAttribute("data-ignite-nodiff", "");
		}
		this.root = this.host.attachShadow({ mode: "open" });
		page.document.body.append(this.host);
		this.s = this.m.jsxRenderer.createIgniteJsxRenderStrategy();
		this.con.take();
	}
	dispose() {
		this.con.restore();
		this.host.remove();
		if (this.savedFlag === undefined) delete process.env.IGNITE_DIFF_ENABLED;
		else process.env.IGNITE_DIFF_ENABLED = this.savedFlag;
		resetRealm();
	}
	fn(id) {
		let f = this.fns.get(id);
		if (!f) {
			f = (...args) => { this.calls.push({ id: args.length === 1 && args[0] === this.dispatched ? id : `${id} with other arguments`, at: args[0]?.currentTarget }); };
			this.fns.set(id, f);
		}
		return f;
	}
	obj(id) {
		let o = this.objs.get(id);
		if (!o) {
			o = this.rng.pick([() => ({ same: 1 }), () => [1], () => () => 0, () => new Date(0), () => new Map()])();
			this.objs.set(id, o);
			this.objIds.set(o, id);
		}
		return o;
	}
	liveText(v) {
		if (v === undefined || v === null || v === false) return "~";
		return this.objIds.get(v) ?? (typeof v === "string" ? v : `${typeof v}:${String(v)}`);
	}
	propValue(p) {
		switch (p.t) {
			case "str": return p.v;
			case "num": return Number(p.v);
			case "true": return true;
			case "absent": return ABSENT[p.v];
			case "fn": return this.fn(p.v);
			case "obj": return this.obj(p.v);
			case "sstr": return p.v;
			case "sobj": return Object.fromEntries(p.o.map(([n, v]) => [n, v === "~" ? (this.rng.chance(0.5) ? null : undefined) : (/^-?[\d.]+$/.test(v) && this.rng.chance(0.5) ? Number(v) : v)]));
		}
	}
	build(v) {
		const { jsx, jsxs, Fragment } = this.m.jsx;
		const dev = this.rng.chance(0.2) ? this.m.jsxDev.jsxDEV : null;
		switch (v.k) {
			case "text": return v.tag === "num" ? Number(v.text) : v.text;
			case "empty": return v.tag === "true" ? true : ABSENT[v.tag];
			case "unk": return { unexpected: 1 };
			case "boom": return jsx(() => { throw new Error("boom"); }, {});
			case "arr": return v.kids.map((k) => this.build(k));
		}
		const kids = v.kids.map((k) => this.build(k));
		const props = {};
		for (const p of v.props) props[p.n] = this.propValue(p);
		if (this.rng.chance(0.2)) props.ref = {};
		// a sole null or undefined is the same as no children at all
		if (!kids.length && this.rng.chance(0.2)) props.children = this.rng.pick([null, undefined]);
		else if (kids.length === 1 && (kids[0] ?? null) !== null && this.rng.chance(0.6)) props.children = kids[0];
		else if (kids.length) props.children = kids;
		const key = this.rng.chance(0.2) ? "k1" : undefined;
		if (v.k === "el" && !Object.keys(props).length && this.rng.chance(0.3)) return jsx(v.tag, this.rng.pick([null, undefined]));
		if (this.rng.chance(0.1)) Object.freeze(props);
		const make = (type, pr) => (dev ? dev(type, pr, key, false, {}, null) : kids.length > 1 ? jsxs(type, pr, key) : jsx(type, pr, key));
		if (v.k === "frag") return make(Fragment, props);
		if (v.k === "comp") {
			const mark = {};
			const nothing = this.rng.pick([0, "", null, false, undefined]);
			switch (this.rng.int(5)) {
				case 0: return make(({ data }) => data, { data: kids });
				case 1: return make(({ data, ...rest }) => jsx(Fragment, { ...rest, children: data }), { data: kids });
				case 2: return make((p) => jsx((q) => q.children, { children: p.mark === mark && "nothing" in p && Object.is(p.nothing, nothing) ? p.data : "the component got other props" }), { data: kids, mark, nothing });
				default: return make(({ children }) => children, props);
			}
		}
		return make(v.tag, props);
	}
	id(n) {
		let i = this.ids.get(n);
		if (!i) { i = `n${this.nextId++}`; this.ids.set(n, i); }
		return i;
	}
	contentRoot() {
		const roots = this.root.querySelectorAll("[data-ignite-jsx-root]");
		return roots.length === 1 ? roots[0] : null;
	}
	snap(n, ancestors = []) {
		const base = { k: "el", tag: "", ns: "", text: "", attrs: [], style: [], live: [], on: [], id: this.id(n), kids: [] };
		if (n.nodeType === 3) return { ...base, k: "txt", text: n.data };
		if (n.nodeType === 8) return { ...base, k: "cmt" };
		if (n.nodeType !== 1) return { ...base, k: `node${n.nodeType}` };
		base.tag = n.localName;
		base.ns = n.namespaceURI === "http://www.w3.org/2000/svg" ? "svg" : n.namespaceURI === "http://www.w3.org/1999/xhtml" ? "html" : String(n.namespaceURI);
		for (const a of n.attributes) if (a.name !== "style") base.attrs.push([a.name, a.value]);
		for (let i = 0; i < n.style.length; i++) base.style.push([n.style[i], n.style.getPropertyValue(n.style[i])]);
		if (base.ns === "html") {
			if (base.tag === "input" || base.tag === "textarea") base.live.push(["value", n.type === "checkbox" ? "" : n.value], ["checked", String(Boolean(n.checked))]);
			if (base.tag === "select") base.live.push(["value", n.value]);
			if (base.tag === "x-host") base.live.push(["payload", this.liveText(n.payload)], ["value", this.liveText(n.value)]);
		}
		if (n.isComposing) base.live.push(["composing", "true"]);
		if (this.root.activeElement === n) base.live.push(["focus", "true"]);
		for (const ev of new Set(Object.values(EVENTS))) {
			this.calls.length = 0;
			this.dispatched = new page.window.Event(ev, { bubbles: true, composed: this.rng.chance(0.5), cancelable: true });
			n.dispatchEvent(this.dispatched);
			const seen = new Map();
			const above = [];
			for (const c of this.calls) {
				if (c.at !== n) { above.push(c.id); continue; }
				const k = (seen.get(c.id) ?? 0) + 1;
				seen.set(c.id, k);
				base.on.push([ev, k > 1 ? `${c.id} again` : c.id]);
			}
			// the handlers of the elements around it run as well, once each
			const want = ancestors.flatMap((a) => a.on.filter((x) => x[0] === ev).map((x) => x[1]));
			if (above.slice().sort().join() !== want.sort().join()) base.on.push([ev, `around it: ${above.join()} instead of ${want.join()}`]);
		}
		for (const c of n.childNodes) base.kids.push(this.snap(c, [base, ...ancestors]));
		return base;
	}
	snapAll() {
		const r = this.contentRoot();
		if (!r) return [];
		return [...r.childNodes].map((c) => this.snap(c));
	}
	logs() {
		const out = [];
		for (const l of this.con.take()) {
			const m = /Falling back to replace \(([^,)]*)/.exec(l.text);
			if (m) out.push([l.level, m[1] === `denylist:${this.hostTag}` ? "denylist:host" : m[1]]);
		}
		return out;
	}
	attach() {
		return { op: "attach", err: this.attempt(() => this.s.attach(this.root)) };
	}
	/** another renderer takes the root over, content and all */
	takeover() {
		this.s = this.m.jsxRenderer.createIgniteJsxRenderStrategy();
		return this.attach();
	}
	detach() {
		const err = this.attempt(() => this.s.detach());
		return { op: "detach", err, dom: this.snapAll() };
	}
	attempt(f) {
		page.errors.length = 0;
		try {
			f();
		} catch (e) {
			return String(e?.message ?? e) || "error";
		}
		return page.errors.length ? String(page.errors[0]?.message ?? page.errors[0]) : "";
	}
	render(view) {
		const built = this.build(view);
		const watched = this.contentRoot();
		let mo = null;
		if (watched) { mo = new page.window.MutationObserver(() => {}); mo.observe(watched, { childList: true, subtree: true }); }
		const err = this.attempt(() => this.s.render(built));
		const logs = this.logs();
		// a node that was taken out and put back did not stay in place (focus, scroll, frames are lost)
		for (const rec of mo?.takeRecords() ?? []) for (const n of rec.removedNodes) if (watched.contains(n)) this.ids.delete(n);
		mo?.disconnect();
		return { op: "render", view, dom: this.snapAll(), logs, err };
	}
	/** the user types, toggles or chooses somewhere */
	user() {
		const r = this.contentRoot();
		if (!r) return null;
		const c = [...r.querySelectorAll("input, textarea, select")];
		if (!c.length) return null;
		const n = this.rng.pick(c);
		if (this.rng.chance(0.3)) n.focus();
		if (n.localName !== "select" && n.type !== "checkbox" && this.rng.chance(0.15)) n.isComposing = !n.isComposing;
		else if (n.localName === "select") n.value = this.rng.pick([...n.options]).value;
		else if (n.type === "checkbox") n.checked = !n.checked;
		else n.value = this.rng.pick(["typed", "v1", "", "v2"]);
		return { op: "user", dom: this.snapAll() };
	}
}

export function defineHelpers() {
	if (!page.window.customElements.get("x-host")) {
		page.window.customElements.define("x-host", class extends page.window.HTMLElement {
			#p;
			get payload() { return this.#p; }
			set payload(v) { this.#p = v; }
			#v;
			get value() { return this.#v; }
			set value(v) { this.#v = v; }
		});
	}
}

const BASE = { mode: "", flag: "", host: "", deny: [], logging: "" };

export function randomCfg(rng, optouts) {
	const c = { ...BASE, deny: [] };
	if (!optouts || rng.chance(0.2)) return { ...c, mode: rng.pick(["", "diff"]) };
	c.logging = rng.pick(["", "off", "warn", "debug", "warn", "debug", "loud"]);
	switch (rng.int(7)) {
		case 0: c.mode = "replace"; break;
		case 1: c.flag = "off"; break;
		case 2: c.host = "nodiff"; break;
		case 3: c.host = "hydrated"; break;
		case 4: c.host = "deny"; break;
		case 5: c.deny = rng.shuffle(["p", "x-plain", "g", "input", "li", "slot", "button", "span"]).slice(0, 1 + rng.int(2)); break;
		default: c.flag = "on";
	}
	if (rng.chance(0.15)) c.mode = rng.pick(["replace", "diff"]);
	if (rng.chance(0.1)) c.flag = rng.pick(["off", "on"]);
	return c;
}

/** one recorded run */
export function record(lib, seed, opts) {
	const rng = makeRng(seed);
	const lists = rng.chance(0.08);
	const cfg = lists && opts.optouts && rng.chance(0.6) ? { ...BASE, logging: rng.pick(["warn", "debug"]) } : randomCfg(rng, opts.optouts);
	const g = new Gen(rng.fork(), { depth: 2 + rng.int(3), width: 2 + rng.int(3), wide: rng.chance(0.1) });
	const w = new RealRenderer(lib, cfg, rng.fork());
	const steps = [];
	try {
		if (opts.optouts && rng.chance(0.1)) steps.push(w.render(g.root()));
		steps.push(w.attach());
		let v = lists ? g.list() : g.root();
		for (let i = 0; i < opts.len; i++) {
			steps.push(w.render(v));
			if (rng.chance(0.06)) steps.push(w.render({ ...E0(rng.pick(["frag", "arr", "comp"])), kids: [...rng.shuffle([g.mutate(v), E0("boom"), T("x")])] }));
			if (rng.chance(opts.user ?? 0.3)) {
				const u = w.user();
				if (u) steps.push(u);
			}
			if (opts.optouts && rng.chance(0.04)) {
				steps.push(w.detach());
				if (rng.chance(0.5)) steps.push(w.render(v));
				steps.push(w.attach());
			}
			if (opts.optouts && rng.chance(0.03)) steps.push(w.takeover());
			const x = rng.int(12);
			if (lists) v = x > 1 ? g.editList(v) : v;
			else if (x === 0) v = g.root();
			else if (x > 2) v = g.mutate(v);
		}
	} finally {
		w.dispose();
	}
	return { cfg, steps };
}

/** Let TLC decide recorded runs; returns complaints [{t, i, first, tags}]. */
export async function judge(traces) {
	const dir = scratch("trace");
	const file = path.join(dir, "traces.json");
	fs.writeFileSync(file, JSON.stringify(traces));
	const bad = [];
	const res = await runTlc({
		module: "RendererTrace", cfg: { view: "View" }, workers: 6, heap: "4g", env: { TRACE_FILE: file },
		onLine: (tag, body) => { if (tag === "BAD") bad.push(body); },
	});
	fs.rmSync(dir, { recursive: true, force: true });
	if (!res.ok) throw new Error(`TLC failed on recorded traces:\n${res.output.slice(-3000)}`);
	return { bad: bad.sort((a, b) => a.t - b.t || a.i - b.i), tlc: res };
}

const STRUCT = new Set(["tree", "attrs", "style", "live"]);
/** which properties does a complaint concern? */
export function concerns(c, trace) {
	const ids = new Set();
	const step = trace.steps[c.i - 1];
	const optout = trace.cfg.mode === "replace" || trace.cfg.flag === "off" || trace.cfg.host || trace.cfg.deny.length;
	for (const tag of c.tags) {
		if (STRUCT.has(tag) || tag === "error") ids.add(c.first ? "C15" : optout ? "C19" : "C16");
		if (tag === "live" && !c.first) ids.add("C17");
		if (tag === "throw") ids.add(optout ? "C19" : "C16");
		if (tag === "focus") ids.add("C17");
		if (tag === "identity") ids.add(optout ? "C19" : "C17");
		if (tag === "handlers") ids.add("C18");
		if (tag === "log" || tag === "unattached" || tag === "detach") ids.add("C19");
	}
	if (!c.first && optout && c.tags.some((t) => STRUCT.has(t))) ids.add("C16");
	void step;
	return ids;
}

export async function runRenderer(ctx, { optouts = false, runs = 400, len = 10, user = 0.3, small = true }) {
	const lib = await bundle();
	installDom();
	defineHelpers();
	const stats = { states: 0, transitions: 0, traces: 0, steps: 0, nodes: 0, cut: 0 };
	const samples = [];
	const batches = [];
	const flush = async (traces, label) => {
		const { bad, tlc } = await judge(traces.map((x) => x.trace));
		stats.states += tlc.distinct;
		stats.transitions += tlc.states;
		for (const c of bad) {
			const { trace, seed } = traces[c.t - 1];
			if (!concerns(c, trace).has(ctx.id)) { stats.cut++; continue; }
			ctx.violation({
				suite: "renderer", label, seed, cfg: trace.cfg, step: c.i, tags: c.tags,
				text: `render ${c.i} of a recorded run is not allowed by the specification: ${c.tags.join(", ")}`,
				steps: trace.steps.slice(0, c.i).map((s) => (s.op === "render" ? { op: s.op, view: s.view } : { op: s.op, dom: s.dom })),
				observed: trace.steps[c.i - 1].dom, error: trace.steps[c.i - 1].err, logs: trace.steps[c.i - 1].logs,
			});
			if (ctx.done()) return;
		}
	};
	if (small) {
		const g = await exploreGraph({ module: "RendererMC", cfg: { constants: { SIZE: ctx.thorough ? 2 : 1 }, view: "View", actionConstraint: "Emit", invariants: ["FreshlyDescribed"], properties: ["UpdateIsMount", "InPlaceKeeps", "InputKept"] }, heap: "3g" });
		stats.states += g.tlc.distinct;
		stats.transitions += g.edges;
		ctx.log(`small universe: ${g.tlc.distinct} states, ${g.edges} transitions (TLC ${g.tlc.seconds.toFixed(1)}s)`);
		const init = g.states.findIndex((s) => s.started === false);
		const traces = [];
		let n = 0;
		for (const walk of coveringWalks(g, init, makeRng(hashSeed(ctx.seed, "mc")), { maxLen: 25 })) {
			const seed = hashSeed(ctx.seed, "mc", n++);
			const rng = makeRng(seed);
			const cfg = randomCfg(rng, optouts);
			const w = new RealRenderer(lib, cfg, rng);
			const steps = [];
			try {
				steps.push(w.attach());
				for (const e of walk) {
					if (e.a.name === "Render") steps.push(w.render(e.a.view));
					else {
						const inp = w.contentRoot().querySelector("input");
						if (inp) { inp.value = e.a.value; steps.push({ op: "user", dom: w.snapAll() }); }
					}
				}
			} finally { w.dispose(); }
			stats.steps += steps.length;
			stats.traces++;
			traces.push({ trace: { cfg, steps }, seed });
		}
		for (let i = 0; i < traces.length && !ctx.done(); i += 800) await flush(traces.slice(i, i + 800), "small universe");
		if (ctx.done()) return finish();
	}
	const total = ctx.thorough ? runs * 15 : runs;
	for (let b = 0; b < total && !ctx.done(); b += 500) {
		const traces = [];
		for (let i = b; i < Math.min(total, b + 500); i++) {
			const seed = hashSeed(ctx.seed, ctx.id, "run", i);
			const trace = record(lib, seed, { optouts, len, user });
			stats.steps += trace.steps.length;
			stats.traces++;
			traces.push({ trace, seed });
			if (samples.length < 2) samples.push({ cfg: trace.cfg, views: trace.steps.filter((s) => s.view).slice(0, 2).map((s) => s.view) });
			if (i % 100 === 99) { installDom(); defineHelpers(); }
		}
		await flush(traces, "random");
	}
	uninstallDom();
	return finish();
	function finish() {
		return { states: stats.states, transitions: stats.transitions, traces_validated_against_impl: stats.traces, recorded_steps: stats.steps, complaints_of_other_properties: stats.cut, samples };
	}
}
