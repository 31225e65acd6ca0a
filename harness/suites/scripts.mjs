// Runs the release scripts along every behaviour of spec/Release.tla (C30) and spec/Token.tla (C31), with stand-ins for
// git, npm, pnpm and the network: the commands found on PATH only write down how they were called.
import { execFileSync, spawn } from "node:child_process";
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { REPO } from "../lib/bundle.mjs";
import { hashSeed, makeRng } from "../lib/rng.mjs";
import { exploreGraph, scratch } from "../lib/tlc.mjs";

const HERE = path.dirname(fileURLToPath(import.meta.url));

// Every maximal behaviour of an acyclic graph.
function* behaviours(graph, s) {
	if (!graph.out[s].length) { yield []; return; }
	for (const e of graph.out[s]) for (const rest of behaviours(graph, e.t)) yield [e, ...rest];
}

// bash builtins only: PATH holds nothing but the stand-ins
const STUB = `#!/bin/bash
name="\${0##*/}"
printf '%s\\x1f%s\\x1f%s\\n' "$name" "$*" "\${NPM_CONFIG_OTP-}" >> "$STUB_DIR/log"
args=" $* "
step=other
case "$name$args" in
  "git "*) [[ -f "$STUB_DIR/asked" ]] || step=clean ;;
  "npm "*whoami*) step=login; : > "$STUB_DIR/asked" ;;
  "npm "*"token "*) step=token ;;
  *publish*) step=publish ;;
  *" changeset status "*) step=status ;;
  *" changeset version "*) step=version ;;
  "pnpm "*" install "*|"pnpm install "*|"pnpm i "*) step=install ;;
  "pnpm test "*|"pnpm run test "*|"pnpm t "*) step=test ;;
  "pnpm build "*|"pnpm run build "*) step=build ;;
esac
if [[ -f "$STUB_DIR/out-$step" ]]; then printf '%s' "$(<"$STUB_DIR/out-$step")"; [[ $step == token ]] && printf '\\n'; fi
how=ok
[[ -f "$STUB_DIR/how-$step" ]] && how="$(<"$STUB_DIR/how-$step")"
case "$how" in
  exit) echo "failed" >&2; exit "\${STUB_CODE:-1}" ;;
  signal) kill -KILL $$ ;;
esac
# looking at the (scratch) working tree is done by git itself
if [[ $name == git && -n $REAL_GIT ]]; then
  case "$1" in
    status|diff|diff-index|diff-files|ls-files|rev-parse|describe|log) exec "$REAL_GIT" "$@" ;;
  esac
fi
exit 0
`;

// Working trees in every state that matters to a release.
const GIT = ["/usr/bin/git", "/usr/local/bin/git", "/bin/git"].find((g) => fs.existsSync(g));
function gitTrees(base) {
	const trees = {};
	const env = { PATH: "/usr/bin:/bin", HOME: base, GIT_CONFIG_NOSYSTEM: "1", GIT_AUTHOR_NAME: "v", GIT_AUTHOR_EMAIL: "v@v", GIT_COMMITTER_NAME: "v", GIT_COMMITTER_EMAIL: "v@v" };
	for (const [kind, spoil] of Object.entries({
		clean: () => {},
		modified: (d) => fs.appendFileSync(path.join(d, "src.txt"), "x"),
		staged: (d, git) => { fs.appendFileSync(path.join(d, "src.txt"), "x"); git("add", "src.txt"); },
		deleted: (d) => fs.rmSync(path.join(d, "src.txt")),
		renamed: (_d, git) => git("mv", "src.txt", "dst.txt"),
		added: (d, git) => { fs.writeFileSync(path.join(d, "new.txt"), "x"); git("add", "new.txt"); },
		untracked: (d) => fs.writeFileSync(path.join(d, "new file.txt"), "x"),
		untrackedDir: (d) => { fs.mkdirSync(path.join(d, "sub")); fs.writeFileSync(path.join(d, "sub/x"), "x"); },
	})) {
		const d = path.join(base, `tree-${kind}`);
		fs.mkdirSync(d);
		const git = (...args) => execFileSync(GIT, args, { cwd: d, env, stdio: "ignore" });
		git("init", "-q");
		fs.writeFileSync(path.join(d, "src.txt"), "content\n");
		fs.writeFileSync(path.join(d, ".gitignore"), "ignored\n");
		fs.writeFileSync(path.join(d, "ignored"), "x");
		git("add", "-A");
		git("commit", "-qm", "x");
		spoil(d, git);
		trees[kind] = d;
	}
	return trees;
}
function sandbox(base, n, setup) {
	const dir = path.join(base, `r${n}`);
	fs.mkdirSync(path.join(dir, "bin"), { recursive: true });
	fs.mkdirSync(path.join(dir, "cwd"));
	for (const c of ["git", "npm", "pnpm", "npx", "yarn", "corepack", "changeset", "gh", "curl"]) {
		fs.writeFileSync(path.join(dir, "bin", c), STUB, { mode: 0o755 });
	}
	setup(dir);
	return dir;
}
function runScript(dir, argv, env, input, cwd = path.join(dir, "cwd")) {
	return new Promise((resolve) => {
		const child = spawn(process.execPath, argv, {
			cwd,
			env: { PATH: path.join(dir, "bin"), HOME: dir, STUB_DIR: dir, GIT_CONFIG_NOSYSTEM: "1", GIT_OPTIONAL_LOCKS: "0", ...env },
			stdio: ["pipe", "pipe", "pipe"],
		});
		let out = "";
		child.stdout.on("data", (d) => { out += d; });
		child.stderr.on("data", (d) => { out += d; });
		child.stdin.on("error", () => {});
		if (input !== null) child.stdin.write(input);
		if (input === null || !/\n$/.test(input)) child.stdin.end();
		const timer = setTimeout(() => child.kill("SIGKILL"), 60_000);
		child.on("close", (code, signal) => {
			clearTimeout(timer);
			let log = "";
			try { log = fs.readFileSync(path.join(dir, "log"), "utf8"); } catch {}
			resolve({ code, signal, out, log: log.split("\n").filter(Boolean).map((l) => { const [name, args, otp] = l.split("\x1f"); return { name, args, otp }; }) });
		});
	});
}
async function pool(items, size, fn) {
	let i = 0;
	await Promise.all(Array.from({ length: size }, async () => {
		while (i < items.length) { const k = i++; await fn(items[k], k); }
	}));
}
const stepOf = ({ name, args }) => {
	const s = `${name} ${args} `;
	if (/^git /.test(s)) return "git";
	if (/^npm .*whoami/.test(s)) return "login";
	if (/publish/.test(s)) return "publish";
	if (/ changeset status /.test(s)) return "status";
	if (/ changeset version /.test(s)) return "version";
	if (/^pnpm (.* )?(install|i) /.test(s)) return "install";
	if (/^pnpm (run )?(test|t) /.test(s)) return "test";
	if (/^pnpm (run )?build /.test(s)) return "build";
	return "other";
};
const isReal = ({ name, args }) => /changeset publish/.test(`${name} ${args}`) || !/ --dry-run( |$)/.test(` ${args}`);

export async function runRelease(ctx) {
	const graph = await exploreGraph({ module: "Release", cfg: { view: "View", actionConstraint: "EmitEdge", invariants: ["AllGatesFirst", "DryIsDry", "DoneMeansPublished"], properties: ["FailedIsFinal"] } });
	const init = graph.states.findIndex((s) => s.at === "idle");
	const list = [...behaviours(graph, init)];
	ctx.log(`Release: ${graph.tlc.distinct} states, ${graph.edges} transitions; ${list.length} behaviours`);
	const base = scratch("release");
	const trees = gitTrees(base);
	const script = path.join(REPO, "scripts/release-beta.mjs");
	let steps = 0;
	let ran = 0;
	await pool(list, 8, async (b, n) => {
		if (ctx.done()) return;
		const r = makeRng(hashSeed(ctx.seed, "Release", n));
		const { opts } = graph.states[b[0].t];
		const end = b[b.length - 1];
		const OPT = String(100000 + r.int(900000));
		const ENV = String(100000 + r.int(900000));
		const ANS = String(100000 + r.int(900000));
		let tree = "clean";
		const dir = sandbox(base, n, (d) => {
			fs.writeFileSync(path.join(d, "out-login"), "someone");
			for (const { a } of b) {
				const step = a.name === "Gate" ? a.args[0] : a.name === "Publish" ? "publish" : null;
				if (!step || a.outcome === "ok") continue;
				if (a.outcome === "dirty") tree = r.pick(["modified", "staged", "deleted", "renamed", "added"]);
				else if (a.outcome === "untracked") tree = r.pick(["untracked", "untrackedDir"]);
				else if (a.outcome === "missing" && step === "clean") fs.rmSync(path.join(d, "bin/git"));
				else if (a.outcome === "missing" && step === "login") fs.rmSync(path.join(d, "bin/npm"));
				else fs.writeFileSync(path.join(d, `how-${step}`), a.outcome === "missing" ? "exit" : a.outcome);
			}
		});
		const missing = b.some(({ a }) => a.outcome === "missing");
		const argv = [script];
		if (opts.dry) argv.push("--dry-run");
		if (opts.skip) argv.push("--skip-otp");
		if (opts.otp === "empty") argv.push("--otp=");
		if (opts.otp === "value") argv.push(`--otp=${OPT}`);
		if (opts.otp === "padded") argv.push(`--otp= ${OPT} `);
		const answer = b.find(({ a }) => a.name === "Otp")?.a.args[0] ?? "none";
		const input = answer === "empty" ? r.pick(["\n", "  \n"]) : answer === "value" ? `${ANS}\n` : answer === "padded" ? `  ${ANS} \n` : answer === "aborted" ? null : r.pick([null, "unasked\n"]);
		const got = await runScript(dir, [argv[0], ...r.shuffle(argv.slice(1))], { ...(opts.env === "value" ? { NPM_CONFIG_OTP: ENV } : {}), ...(opts.ci ? { CI: "true" } : {}), STUB_CODE: missing ? "127" : String(r.pick([1, 2, 128, 255])), REAL_GIT: GIT }, input, trees[tree]);
		ran++;
		const wantSteps = b.filter(({ a }) => a.name === "Gate" || a.name === "Publish").map(({ a }) => (a.name === "Gate" ? a.args[0] : "publish"));
		// a command that could not even be started has left no line
		const gone = end.a.outcome === "missing" && ["clean", "login"].includes(end.a.args[0]);
		if (gone) wantSteps.pop();
		// git is asked about the working tree first; what it is asked later only informs
		const steps2 = got.log.map(stepOf).filter((s) => s !== "other").map((s, i, l) => (s === "git" && l.slice(0, i).every((x) => x === "git") ? "clean" : s)).filter((s, i, l) => s !== "git" && !(s === "clean" && l[i - 1] === "clean"));
		steps += b.length;
		const problems = [];
		const ok = graph.states[end.t].at === "done";
		if (steps2.join() !== wantSteps.join()) problems.push(`ran ${steps2.join(", ") || "nothing"}; expected ${wantSteps.join(", ") || "nothing"}`);
		if (ok ? got.code !== 0 : got.code === 0) problems.push(`exited with ${got.code ?? got.signal}`);
		const pubs = got.log.filter((l) => stepOf(l) === "publish");
		if (pubs.length > 1) problems.push(`published ${pubs.length} times`);
		for (const p of pubs) {
			const want = end.a.name === "Publish" ? end.a.args : ["nothing"];
			const real = isReal(p) ? "real" : "dry";
			if (real !== want[0]) problems.push(`published for ${real}: ${p.name} ${p.args}; expected ${want[0]}`);
			if (!/ --tag[ =]beta( |$)/.test(` ${p.args}`)) problems.push(`published without the beta tag: ${p.name} ${p.args}`);
			const given = p.otp || /--otp[ =](\S+)/.exec(p.args)?.[1] || "";
			const otp = { option: OPT, env: ENV, answer: ANS, none: "" }[want[1]];
			if (given !== otp) problems.push(`published with the one-time password "${given}", expected "${otp}"`);
		}
		if (problems.length) ctx.violation({ suite: "Release", kind: "release-beta.mjs", tag: "release", text: `${argv.slice(1).join(" ") || "no options"}, ${end.a.name} ${end.a.args} ${end.a.outcome}: ${problems[0]}`, key: problems[0], walk: b.map((e) => e.a), setting: { opts, input, log: got.log, output: got.out.slice(-1500) } });
		fs.rmSync(dir, { recursive: true, force: true });
	});
	fs.rmSync(base, { recursive: true, force: true });
	return { states: graph.tlc.distinct, transitions: graph.edges, traces_validated_against_impl: ran, steps_replayed: steps, behaviours: list.length, samples: list.slice(0, 2).map((b) => b.map((e) => e.a)) };
}

export async function runToken(ctx) {
	const graph = await exploreGraph({ module: "Token", cfg: { view: "View", actionConstraint: "EmitEdge", invariants: ["SuccessIsConfirmed", "NoHalfWay"] } });
	const init = graph.states.findIndex((s) => s.at === "idle");
	const all = [...behaviours(graph, init)];
	const list = Array.from({ length: ctx.thorough ? 20 : 3 }, () => all).flat();
	ctx.log(`Token: ${graph.tlc.distinct} states, ${graph.edges} transitions; ${all.length} behaviours`);
	const base = scratch("token");
	const script = path.join(REPO, "scripts/refresh-npm-token.js");
	let ran = 0;
	let steps = 0;
	await pool(list, 8, async (b, n) => {
		if (ctx.done()) return;
		const r = makeRng(hashSeed(ctx.seed, "Token", n));
		const final = graph.states[b[b.length - 1].t];
		const rand = (k) => Array.from({ length: k }, () => "ABCDEFGHJKMNPQRSTUVWXYZabcdefghkmnpqrstuvwxyz23456789"[r.int(53)]).join("");
		const token = r.pick([`npm_${rand(36)}`, `${rand(8)}-${rand(4)}-${rand(12)}`, `t"${rand(12)}\\'&=`]);
		const github = r.pick([`ghp_${rand(36)}`, `github_pat_${rand(40)}`]);
		const repo = r.pick(["0xjcf/ignite-element", "a/b", "some-user/some.repo_1"]);
		const dir = sandbox(base, n, (d) => {
			fs.writeFileSync(path.join(d, "out-token"), token);
			if (final.npm === "missing") fs.rmSync(path.join(d, "bin/npm"));
			else if (final.npm !== "ok") fs.writeFileSync(path.join(d, "how-token"), final.npm);
		});
		if (final.npm !== "ok") fs.rmSync(path.join(dir, "out-token"));
		const env = {};
		if (["both", "noRepo", "emptyRepo"].includes(final.settings)) env.GITHUB_TOKEN = github;
		if (final.settings === "emptyGithub") env.GITHUB_TOKEN = "";
		if (["both", "noGithub", "emptyGithub"].includes(final.settings)) env.REPO_NAME = repo;
		if (final.settings === "emptyRepo") env.REPO_NAME = "";
		const outFile = path.join(dir, "result.json");
		const got = await runScript(dir, [path.join(HERE, "tokenRun.mjs"), script, outFile, final.api], env, null);
		ran++;
		steps += b.length;
		let rep = null;
		try { rep = JSON.parse(fs.readFileSync(outFile, "utf8")); } catch {}
		const problems = [];
		if (!rep) problems.push(`no result (exit ${got.code ?? got.signal})`);
		else {
			const puts = rep.calls.filter((c) => c.method !== "GET");
			if (rep.result.ok !== (final.at === "done")) problems.push(rep.result.ok ? "reported success" : `failed: ${rep.result.message}`);
			if (!rep.result.ok && !rep.result.isError) problems.push(`failed with ${rep.result.message}, not an error`);
			if (final.api === "unset" ? puts.length : !puts.length) problems.push(puts.length ? "stored a secret" : "stored no secret");
			for (const c of puts) {
				if (c.method !== "PUT" || c.url !== `https://api.github.com/repos/${repo}/actions/secrets/NPM_TOKEN`) problems.push(`called ${c.method} ${c.url}`);
				let body;
				try { body = JSON.parse(c.body); } catch {}
				if (body?.encrypted_value !== token) problems.push(`stored ${JSON.stringify(body?.encrypted_value)} instead of the token`);
				if (c.headers.authorization !== `Bearer ${github}`) problems.push("did not authenticate with GITHUB_TOKEN");
			}
			for (const [what, secret] of [["npm token", token], ["GitHub token", github]]) {
				if (got.out.includes(secret) || got.out.includes(JSON.stringify(secret).slice(1, -1))) problems.push(`wrote the ${what} to the log`);
			}
			const creates = got.log.filter((l) => l.name === "npm" && /token/.test(l.args));
			if (creates.length > 1) problems.push(`created ${creates.length} tokens`);
		}
		if (problems.length) ctx.violation({ suite: "Token", kind: "refresh-npm-token.js", tag: "token", text: `${final.settings}, npm ${final.npm}, API ${final.api}: ${problems[0]}`, key: problems[0], walk: b.map((e) => e.a), setting: { output: got.out.slice(-1500) } });
		fs.rmSync(dir, { recursive: true, force: true });
	});
	fs.rmSync(base, { recursive: true, force: true });
	return { states: graph.tlc.distinct, transitions: graph.edges, traces_validated_against_impl: ran, steps_replayed: steps, behaviours: all.length, samples: all.slice(0, 2).map((b) => b.map((e) => e.a)) };
}
