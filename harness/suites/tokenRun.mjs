// Calls refreshNpmToken() once, with fetch replaced by a recorder; writes what happened to a file.
import fs from "node:fs";
import { pathToFileURL } from "node:url";
const [script, outFile, api] = process.argv.slice(2);
const calls = [];
const STATUS = { created: [201, "Created"], updated: [204, "No Content"], unauthorized: [401, "Unauthorized"], notFound: [404, "Not Found"], invalid: [422, "Unprocessable Entity"], serverError: [500, "Internal Server Error"], redirect: [307, "Temporary Redirect"] };
globalThis.fetch = async (url, init = {}) => {
	const req = url instanceof Request ? url : null;
	const headers = Object.fromEntries(new Headers(init.headers ?? req?.headers ?? {}));
	calls.push({ url: String(req ? req.url : url), method: String(init.method ?? req?.method ?? "GET").toUpperCase(), headers, body: init.body ?? (req ? await req.text() : undefined) });
	if (api === "unreachable") throw new TypeError("fetch failed");
	const [status, statusText] = STATUS[api] ?? [200, "OK"];
	return new Response(null, { status, statusText });
};
let result;
try {
	const { default: refresh } = await import(pathToFileURL(script).href);
	await refresh();
	result = { ok: true };
} catch (e) {
	result = { ok: false, isError: e instanceof Error, message: String(e?.message ?? e) };
}
fs.writeFileSync(outFile, JSON.stringify({ calls, result }));
