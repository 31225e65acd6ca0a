// One part of a check, started by parallel.mjs.
const SUITES = {
	lifecycle: async () => (await import("../suites/lifecycle.mjs")).lifecyclePart,
	config: async () => (await import("../suites/config.mjs")).configPart,
	adapter: async () => (await import("../suites/adapter.mjs")).adapterPart,
};
process.on("disconnect", () => process.exit(3));
process.once("message", async ({ suite, opts, ctx: c }) => {
	const violations = [];
	const ctx = {
		...c,
		thorough: c.tier === "thorough",
		log: (s) => process.send({ log: s }),
		violation(v) { violations.push(v); return "new"; },
		done: () => violations.length > 0,
	};
	let answer;
	try {
		const part = await SUITES[suite]();
		const coverage = await part(ctx, opts);
		answer = { coverage, violations };
	} catch (e) {
		answer = { error: String(e?.stack ?? e) };
	}
	process.send(answer, () => process.exit(0));
});
