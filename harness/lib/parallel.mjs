// Runs parts of a check in child processes.
import { fork } from "node:child_process";
import os from "node:os";
import path from "node:path";
import { fileURLToPath } from "node:url";

const CHILD = path.join(path.dirname(fileURLToPath(import.meta.url)), "parallelChild.mjs");

/** Each job: options for the part function of `suite` (see parallelChild.mjs). Resolves to the results there are, in order. */
export async function inParallel(ctx, suite, jobs) {
	const results = new Array(jobs.length);
	const width = Math.min(jobs.length, Math.max(2, Math.min(8, os.availableParallelism())));
	let next = 0;
	let failed = null;
	const live = new Set();
	const worker = async () => {
		while (next < jobs.length && !failed && !ctx.done()) {
			const i = next++;
			await new Promise((resolve) => {
				const child = fork(CHILD, [], { stdio: ["ignore", "inherit", "inherit", "ipc"] });
				live.add(child);
				let answered = false;
				child.on("message", (m) => {
					if (m.log) return ctx.log(m.log);
					answered = true;
					if (m.error) failed ??= new Error(m.error);
					results[i] = m.coverage;
					for (const v of m.violations ?? []) ctx.violation(v);
					if (failed || ctx.done()) for (const c of live) if (c !== child) c.kill("SIGTERM");
				});
				child.on("exit", (code, signal) => {
					live.delete(child);
					if (!answered && !ctx.done() && !failed) failed = new Error(`a part of the check ended with ${signal ?? code}`);
					resolve();
				});
				child.send({ suite, opts: jobs[i], ctx: { id: ctx.id, tier: ctx.tier, seed: ctx.seed, root: ctx.root } });
			});
		}
	};
	const stop = () => { for (const c of live) c.kill("SIGTERM"); };
	process.on("exit", stop);
	await Promise.all(Array.from({ length: width }, worker));
	process.off("exit", stop);
	if (failed && !ctx.done()) throw failed;
	return results.filter(Boolean);
}
