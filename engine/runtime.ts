// Runs contracts on the real code with generated inputs (cross-check of the verifier, and search for failing inputs).
// usage: node engine/runtime.ts JOB.json   (see run.ts); prints one JSON line.
import { Worker, isMainThread, workerData, parentPort } from "node:worker_threads";
import fs from "node:fs";
import path from "node:path";
import util from "node:util";
import { registerHooks } from "node:module";
import { pathToFileURL, fileURLToPath } from "node:url";
import { G } from "./gen.ts";
import { ghostReset } from "./spec.ts";

const REPO = process.env.VERIF_REPO ?? "/repo";
export interface Job { file: string; contract: string; seconds: number; maxIter: number; seed: number; lits: { str: string[]; num: number[] }; from?: number; replay?: boolean; restAt?: number; method?: boolean }
export interface Failure { clause: string; iter: number; args: string; detail: string; size: number }
export interface Result { contract: string; iters: number; accepted: number; returned: number; threw: number; failure?: Failure; error?: string; skipped?: boolean }

function walk(roots: unknown[], exempt: Set<unknown>): Map<object, any[]> {
	const out = new Map<object, any[]>();
	const todo = [...roots];
	while (todo.length) {
		const x = todo.pop();
		if (x === null || typeof x !== "object" || out.has(x)) continue;
		const flat: any[] = [];
		if (x instanceof Map) for (const [k, v] of x) { flat.push(k, v); todo.push(k, v); }
		else if (x instanceof Set) for (const k of x) { flat.push(k); todo.push(k); }
		for (const k of Object.keys(x)) { const v = (x as any)[k]; flat.push(k, v); todo.push(v); }
		if (!exempt.has(x)) out.set(x, flat); else out.set(x, []);
	}
	for (const e of exempt) out.delete(e as object);
	return out;
}
function flatNow(x: any): any[] {
	const flat: any[] = [];
	if (x instanceof Map) for (const [k, v] of x) flat.push(k, v);
	else if (x instanceof Set) for (const k of x) flat.push(k);
	for (const k of Object.keys(x)) flat.push(k, x[k]);
	return flat;
}
const show = (v: unknown) => util.inspect(v, { depth: 12, maxArrayLength: 200, maxStringLength: 2000, breakLength: 160 });

async function main(job: Job, tick: Int32Array) {
	const src = fs.readFileSync(job.file, "utf-8");
	const wanted = new Map<string, Set<string>>();
	for (const m of src.matchAll(/internal\(\s*"([^"]+)"\s*,\s*"([^"]+)"\s*\)/g)) {
		const f = path.join(REPO, m[1]);
		if (!wanted.has(f)) wanted.set(f, new Set());
		wanted.get(f)!.add(m[2].split(".")[0]);
	}
	if (wanted.size) registerHooks({
		load(url, ctx, next) {
			const r = next(url, ctx);
			if (!url.startsWith("file:")) return r;
			const names = wanted.get(fileURLToPath(url));
			if (!names || r.source === undefined || r.source === null) return r;
			const rel = path.relative(REPO, fileURLToPath(url));
			let s = typeof r.source === "string" ? r.source : Buffer.from(r.source as any).toString("utf-8");
			s += `\n;globalThis.__verif_internals ??= {};\n`;
			for (const n of names) s += `try { globalThis.__verif_internals[${JSON.stringify(`${rel}#${n}`)}] = ${n}; } catch {}\n`;
			return { ...r, source: s };
		},
	});
	for (const f of wanted.keys()) await import(pathToFileURL(f).href);
	const mod = await import(pathToFileURL(job.file).href);
	const c = (mod.contracts as any[]).find((x) => x.name === job.contract);
	const res: Result = { contract: job.contract, iters: 0, accepted: 0, returned: 0, threw: 0 };
	if (!c) { res.error = "contract not found"; return res; }
	if (!c.gen || c.skipRuntime) { res.skipped = true; return res; }
	const end = Date.now() + job.seconds * 1000;
	let after = 0;
	for (let it = job.from ?? 0; ; it++) {
		if (res.iters >= job.maxIter || (res.iters % 16 === 0 && Date.now() > end)) break;
		if (res.failure && ++after > 2000) break;
		Atomics.store(tick, 0, it + 1);
		res.iters++;
		const mk = () => { const g = new G((job.seed * 1000003 + it) >>> 0, job.lits); g.size = 2 + (it % 5) + (it % 97 === 0 ? 12 : 0); return c.gen(g) as any[]; };
		const call = mk();
		const args = job.restAt !== undefined && job.restAt >= 0 ? [...call.slice(0, job.restAt), call.slice(job.restAt)] : call;
		const fail = (clause: string, detail: string) => {
			const a = show(mk());
			if (!res.failure || a.length < res.failure.size) res.failure = { clause, iter: it, args: a, detail, size: a.length };
		};
		ghostReset();
		let accepted = true;
		try { if (c.requires) accepted = !!c.requires(...args); } catch { accepted = false; }
		if (!accepted) continue;
		res.accepted++;
		let old: any, may: any, must: any, exempt: Set<unknown>;
		try {
			old = c.pre ? c.pre(...args) : undefined;
			may = typeof c.mayThrow === "function" ? !!c.mayThrow(...args) : !!c.mayThrow;
			must = c.mustThrow ? !!c.mustThrow(...args) : false;
			exempt = new Set(c.modifies ? c.modifies(...args) : []);
		} catch (e) { res.error = `contract clause failed: ${(e as Error).stack}`; return res; }
		const before = c.frame === "pure" ? walk(args, exempt) : undefined;
		let result: any, threw = false, err: any;
		try {
			result = c.call ? c.call(...call) : job.method ? c.target.apply(call[0], call.slice(1)) : c.target(...call);
			if (result && typeof result.then === "function") result = await result;
		} catch (e) { threw = true; err = e; }
		if (threw) {
			res.threw++;
			if (!may) { fail("no exception escapes", String((err as any)?.stack ?? err).slice(0, 600)); continue; }
			for (const [nm, f] of Object.entries(c.onThrow ?? {}) as any) {
				try { if (!f(old, ...args)) fail(nm, `threw ${String(err)}`); } catch (e) { fail(nm, `clause raised ${String(e)}`); }
			}
		} else {
			res.returned++;
			if (must) fail("returns normally only when permitted", `returned ${show(result)}`);
			for (const [nm, f] of Object.entries(c.ensures ?? {}) as any) {
				let v: any, d = "";
				try { v = f(result, old, ...args); } catch (e) { v = false; d = `clause raised ${String(e)}; `; }
				if (!v) fail(nm, `${d}result ${show(result)}`);
			}
		}
		if (before) for (const [o, flat] of before) {
			const now = flatNow(o);
			if (now.length !== flat.length || now.some((x, i) => !Object.is(x, flat[i]))) { fail("frame", `an input object was modified: ${show(o)}`); break; }
		}
		if (job.replay) break;
	}
	return res;
}

if (isMainThread) {
	const job: Job = JSON.parse(fs.readFileSync(process.argv[2], "utf-8"));
	const sab = new SharedArrayBuffer(8);
	const tick = new Int32Array(sab);
	const w = new Worker(new URL(import.meta.url), { workerData: { job, sab }, resourceLimits: { maxOldGenerationSizeMb: 1500 } });
	let last = -1, since = Date.now(), done = false;
	const out = (r: Result) => { if (done) return; done = true; process.stdout.write(`\n@@RESULT ${JSON.stringify(r)}\n`, () => process.exit(0)); };
	w.on("message", out);
	w.on("error", (e) => out({ contract: job.contract, iters: tick[0], accepted: 0, returned: 0, threw: 0, error: String(e?.stack ?? e) }));
	w.on("exit", () => out({ contract: job.contract, iters: tick[0], accepted: 0, returned: 0, threw: 0, error: "worker exited" }));
	setInterval(() => {
		const n = Atomics.load(tick, 0);
		if (n !== last) { last = n; since = Date.now(); return; }
		if (n > 0 && Date.now() - since > 25000) out({ contract: job.contract, iters: n, accepted: n, returned: 0, threw: 0, failure: { clause: "terminates", iter: n - 1, args: `seed ${job.seed}, iteration ${n - 1}`, detail: "the call did not return within 25 s", size: 0 } });
	}, 1000).unref();
} else {
	const { job, sab } = workerData;
	main(job, new Int32Array(sab)).then((r) => parentPort!.postMessage(r), (e) => parentPort!.postMessage({ contract: job.contract, iters: 0, accepted: 0, returned: 0, threw: 0, error: String(e?.stack ?? e) }));
}
