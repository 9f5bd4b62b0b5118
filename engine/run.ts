// The check of one property: generates every obligation from /repo's current source, discharges them, cross-checks the
// contracts on the real code, and reports. usage: node engine/run.ts C02 [quick|thorough]
import path from "node:path";
import fs from "node:fs";
import os from "node:os";
import { spawn } from "node:child_process";
import ts from "./tsapi.ts";
import { loadProgram, findContracts, generate, resolveTarget, literalOf, REPO } from "./verify.ts";
import { script, portfolio, Z3, Z3E, CVC5, CVC5F, pool, checkSync, cores } from "./solve.ts";
import type { SolveResult } from "./solve.ts";
import { Engine } from "./exec.ts";
import * as T from "./term.ts";
import type { Result, Failure } from "./runtime.ts";

const VERIF = path.resolve(import.meta.dirname, "..");
const id = process.argv[2];
const tier = (process.argv[3] ?? process.env.VERIF_TIER ?? "quick") === "thorough" ? "thorough" : "quick";
const seed = Number(process.env.VERIF_SEED ?? 1) | 0;
const Q = tier === "quick";
const started = Date.now();
const HARD = Q ? 780_000 : 3_000_000;
const left = () => HARD - (Date.now() - started);
const file = path.join(VERIF, "contracts", `${id}.ts`);
const scratch = fs.mkdtempSync(path.join(os.tmpdir(), `tsvc-${id}-`));
process.on("exit", () => { try { fs.rmSync(scratch, { recursive: true, force: true }); } catch {} });
const log = (s: string) => console.log(s);

let houdini = 0;
(Engine.prototype as any).prover = (h: any, g: any, m: any) => { houdini++; return checkSync(h, g, m, left() > 300_000 ? 4000 : 1000); };

// ---------- runtime jobs
let jobNo = 0;
function runtime(contract: string, seconds: number, maxIter: number, sd: number, lits: any, meta: any): Promise<Result> {
	const jf = path.join(scratch, `job${jobNo++}.json`);
	fs.writeFileSync(jf, JSON.stringify({ file, contract, seconds, maxIter, seed: sd, lits, ...meta }));
	return new Promise((res) => {
		const ch = spawn(process.execPath, ["--conditions=pi-source", "--no-warnings", "--disable-warning=ExperimentalWarning", path.join(VERIF, "engine", "runtime.ts"), jf], { cwd: scratch, env: { ...process.env, NODE_OPTIONS: "", HOME: scratch, PI_CODING_AGENT_DIR: path.join(scratch, "agent") }, stdio: ["ignore", "pipe", "pipe"] });
		let out = "", err = "";
		ch.stdout.on("data", (d) => { out += d; });
		ch.stderr.on("data", (d) => { err = (err + d).slice(-4000); });
		const t = setTimeout(() => ch.kill("SIGKILL"), (seconds + 90) * 1000);
		ch.on("close", () => {
			clearTimeout(t);
			const m = out.match(/@@RESULT (.*)/);
			if (m) res(JSON.parse(m[1]));
			else res({ contract, iters: 0, accepted: 0, returned: 0, threw: 0, error: `runtime cross-check gave no result: ${err.slice(-1500)}` });
		});
	});
}
// ---------- literals of the code under check
function mine(program: ts.Program, decl: ts.Node | undefined): { str: string[]; num: number[] } {
	const str = new Set<string>(), num = new Set<number>();
	const visit = (n: ts.Node) => {
		if (ts.isImportDeclaration(n)) return;
		if ((ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n) || ts.isTemplateHead(n) || ts.isTemplateMiddle(n) || ts.isTemplateTail(n)) && n.text.length < 60) str.add(n.text);
		if (ts.isNumericLiteral(n)) { const x = Number(n.text.replace(/_/g, "")); if (Number.isFinite(x)) num.add(x); }
		n.forEachChild(visit);
	};
	if (decl) visit(decl.getSourceFile());
	return { str: [...str].slice(0, 400), num: [...num].slice(0, 200) };
}

interface Failed { contract: string; name: string; kind: string; status: string; back: string; out: string; smt: string }
async function main() {
	const program = loadProgram(file);
	const list = findContracts(program, file);
	if (!list.length) throw new Error(`no contracts in ${file}`);
	// runtime cross-check starts first, in its own processes
	const metas = new Map<string, { lits: any; meta: any; targetErr?: string }>();
	for (const c of list) {
		const e = new Engine(program);
		let decl: any;
		try { decl = resolveTarget(e, c.get("target")!); } catch { /* reported by generate */ }
		const restAt = decl?.parameters?.findIndex((p: any) => p.dotDotDotToken) ?? -1;
		const method = !!decl && (ts.isMethodDeclaration(decl) || ts.isGetAccessorDeclaration(decl)) && !ts.isObjectLiteralExpression(decl.parent) && !decl.modifiers?.some((m: any) => m.kind === ts.SyntaxKind.StaticKeyword);
		metas.set(c.name, { lits: mine(program, decl), meta: { restAt, method } });
	}
	const rtSecs = Q ? Math.max(4, Math.min(15, 60 / list.length)) : 90;
	const rtMax = Q ? 40_000 : 3_000_000;
	const rtAll = pool(list, 3, (c) => { const m = metas.get(c.name)!; return runtime(c.name, rtSecs, rtMax, seed, m.lits, m.meta); });

	const failed: Failed[] = [];
	const perContract: any[] = [];
	const byBack: Record<string, { obligations: number; ms: number }> = {};
	const assumptions = new Set<string>();
	let obligations = 0, discharged = 0, solverMs = 0;
	const kinds: Record<string, number> = {};
	const bounded: string[] = [];
	const covers: any[] = [];
	for (const c of list) {
		const b = literalOf(c.get("bounded")); if (b) bounded.push(`${c.name}: ${b}`);
		if (literalOf(c.get("runtimeOnly"))) continue;
		const r = generate(program, c);
		for (const a of r.assumptions) assumptions.add(a);
		if (r.error) {
			failed.push({ contract: c.name, name: `${c.name}: obligations could not be generated`, kind: "generation", status: "unsupported", back: "tsvc", out: r.error, smt: "" });
			obligations++;
			perContract.push({ contract: c.name, target: r.target, error: r.error });
			log(`${id} ${c.name}: obligations could not be generated: ${r.error.split("\n")[0]}`);
			continue;
		}
		const eng = r.engine;
		const scripts = r.obligations.map((o) => (o.goal === T.TRUE ? "" : script([...eng.baseFacts, ...o.facts, ...o.pc], o.goal, eng.strMode)));
		const coverScripts = r.covers.map((k) => script([...eng.baseFacts, ...k.facts, ...k.pc], T.FALSE, eng.strMode));
		const memo = new Map<string, Promise<SolveResult>>();
		let ok = 0;
		const solve = (smt: string): Promise<SolveResult> => {
			let p = memo.get(smt);
			if (!p) { p = discharge(smt); memo.set(smt, p); }
			return p;
		};
		await pool(r.obligations, cores(), async (o, i) => {
			obligations++;
			kinds[o.kind] = (kinds[o.kind] ?? 0) + 1;
			const x: SolveResult = scripts[i] ? await solve(scripts[i]) : { status: "unsat", back: "simplifier", ms: 0, out: "" };
			if (x.status === "unsat") {
				discharged++; ok++;
				(byBack[x.back] ??= { obligations: 0, ms: 0 }).obligations++;
				byBack[x.back].ms += x.ms; solverMs += x.ms;
			} else failed.push({ contract: c.name, name: o.name, kind: o.kind, status: x.status, back: x.back, out: x.out.slice(0, 4000), smt: scripts[i] });
		});
		// vacuity: some normal return must not be provably unreachable
		let reachable = coverScripts.length === 0 && c.entries("ensures").length === 0;
		const cv = await pool(coverScripts.slice(0, 24), cores(), (s) => portfolio(s, [Z3(2500)], 2500));
		const nUnsat = cv.filter((x) => x.status === "unsat").length;
		if (nUnsat < cv.length) reachable = true;
		if (!reachable) {
			obligations++;
			failed.push({ contract: c.name, name: `${c.name}: some normal return is reachable`, kind: "cover", status: "unreachable", back: "z3-new", out: "every normal return path was proved unreachable, so the postconditions hold vacuously", smt: coverScripts[0] ?? "" });
		} else covers.push({ contract: c.name, returnPaths: cv.length, unreachable: nUnsat });
		perContract.push({ contract: c.name, target: r.target, obligations: r.obligations.length, discharged: ok, exitPaths: r.paths, inlined: r.inlined, loops: r.loopNotes, generationMs: r.genMs });
		log(`${id} ${c.name}: ${ok}/${r.obligations.length} obligations discharged (${r.target}, ${r.inlined.length} function bodies, ${r.loopNotes.length} loops)`);
	}
	const rts = await rtAll;
	// ---------- decide
	const known = loadKnown();
	const violations: { contract: string; name: string; replay: any; noInput: boolean }[] = [];
	const knownHit = new Set<string>();
	const report = (f: Failure, contract: string, sd: number, proof?: Failed) => {
		const k = known.find((x) => x.property === id && x.contract === contract && x.clause === f.clause && (!x.args || f.args === x.args));
		if (k) { knownHit.add(k.what); return; }
		violations.push({ contract, name: `${contract}: ${f.clause}`, noInput: false, replay: { property: id, contract, clause: f.clause, seed: sd, iteration: f.iter, input: f.args, observed: f.detail, lits: metas.get(contract)?.lits, failedObligation: proof?.name, rerun: `node engine/replay.ts <this file>` } });
	};
	const seenContracts = new Set<string>();
	for (const r of rts) {
		if (r.error && !r.skipped) failed.push({ contract: r.contract, name: `${r.contract}: contract runs on the real code`, kind: "runtime", status: "error", back: "node", out: r.error, smt: "" });
		if (r.failure) { seenContracts.add(r.contract); report(r.failure, r.contract, seed, failed.find((f) => f.contract === r.contract)); }
	}
	// search for a failing input of every contract with an undischarged obligation
	const hunts: any[] = [];
	const toHunt = [...new Set(failed.filter((f) => f.kind !== "runtime").map((f) => f.contract))].filter((c) => !seenContracts.has(c) && !known.some((k) => k.property === id && k.contract === c && k.proof));
	for (const c of toHunt) {
		const secs = Math.max(5, Math.min(Q ? 100 : 400, (left() - 60_000) / 1000 / toHunt.length));
		const m = metas.get(c)!;
		const rs = await pool([1, 2, 3, 4, 5, 6, 7].map((k) => seed * 100 + k), 7, (sd) => runtime(c, secs, 100_000_000, sd, m.lits, m.meta).then((r) => ({ r, sd })));
		hunts.push({ contract: c, inputs: rs.reduce((a, x) => a + x.r.accepted, 0) });
		const hit = rs.filter((x) => x.r.failure).sort((a, b) => a.r.failure!.size - b.r.failure!.size)[0];
		if (hit) { seenContracts.add(c); report(hit.r.failure!, c, hit.sd, failed.find((f) => f.contract === c)); }
	}
	for (const f of failed) {
		if (seenContracts.has(f.contract)) continue;
		const k = known.find((x) => x.property === id && x.contract === f.contract && x.proof && f.name.includes(x.proof));
		if (k) { knownHit.add(k.what); continue; }
		violations.push({ contract: f.contract, name: f.name, noInput: true, replay: { property: id, contract: f.contract, failedObligation: f.name, kind: f.kind, status: f.status, backEnd: f.back, verifierOutput: f.out, smt: f.smt.slice(0, 200_000), search: hunts.find((h) => h.contract === f.contract) } });
	}
	for (const k of known.filter((x) => x.property === id)) if (knownHit.has(k.what)) log(`KNOWN-FINDING: property=${id} ${k.what}`);
	// ---------- evidence
	const evals = rts.reduce((a, r) => a + r.accepted, 0);
	fs.mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
	fs.writeFileSync(path.join(VERIF, "evidence", `${id}.json`), JSON.stringify({
		property: id, tier, seed, level: "proof",
		coverage: {
			obligations, discharged, checker_cmd: `node engine/run.ts ${id} ${tier}`,
			trusted_base: ["tsvc (/verif/engine): symbolic execution of the TypeScript AST of /repo into verification conditions, loop summarisation, built-in models", "TypeScript 5.9.3 parser and type checker (static types of non-any values are trusted)", "Z3 5.x and cvc5 1.1.2"],
			functions_under_contract: perContract, obligation_kinds: kinds, discharged_by: byBack, solver_ms: solverMs, loop_invariant_queries: houdini,
			reachability: covers, bounded_standins: bounded,
			undischarged: failed.map((f) => ({ name: f.name, status: f.status, kind: f.kind })).slice(0, 100),
			runtime_crosscheck: { what: "the same contract clauses evaluated on the real code with generated inputs; a cross-check of the verifier, not part of the proof", evaluations: evals, per_contract: rts.map((r) => ({ contract: r.contract, inputs: r.accepted, normal_returns: r.returned, exceptions: r.threw, skipped: r.skipped ?? false })) },
			failing_input_search: hunts,
		},
		assumptions: [...ENGINE_ASSUMPTIONS, ...assumptions].sort(),
		wall_s: (Date.now() - started) / 1000, violations: violations.length,
	}, null, 1));
	if (violations.length) {
		fs.mkdirSync(path.join(VERIF, "replay"), { recursive: true });
		violations.sort((a, b) => Number(a.noInput) - Number(b.noInput));
		const noInput = violations.every((v) => v.noInput);
		const rf = path.join(VERIF, "replay", `${id}.json`);
		fs.writeFileSync(rf, JSON.stringify({ ...violations[0].replay, others: violations.slice(1, 30).map((v) => v.replay.failedObligation ?? v.name) }, null, 1));
		for (const v of violations.slice(0, 12)) log(`  violated: ${v.name}${v.noInput ? " (undischarged)" : `\n    input ${v.replay.input.slice(0, 600)}\n    observed ${v.replay.observed.slice(0, 300)}`}`);
		log(`VIOLATION property=${id} replay=${rf}${noInput ? " no-failing-input-found" : ""}`);
		process.exitCode = 1;
		return;
	}
	log(`${id}: held; ${discharged}/${obligations} obligations discharged, ${evals} cross-check inputs, ${((Date.now() - started) / 1000).toFixed(1)} s`);
}
async function discharge(smt: string): Promise<SolveResult> {
	const b = left() > 200_000 ? 1 : 0.2;
	const stages: [() => any[], number][] = Q
		? [[() => [Z3E(4000)], 4000], [() => [Z3(20000 * b), Z3E(20000 * b), CVC5(20000 * b)], 20000 * b]]
		: [[() => [Z3E(4000)], 4000], [() => [Z3(60000), Z3E(60000), CVC5(60000)], 60000], [() => [CVC5F(60000), Z3(60000)], 60000]];
	let x: SolveResult | undefined;
	for (const [bs, ms] of stages) {
		x = await portfolio(smt, bs(), ms);
		if (x.status === "unsat" || x.status === "sat") return x;
	}
	return x!;
}
const ENGINE_ASSUMPTIONS = [
	"finite numbers are exact reals: IEEE-754 rounding, overflow to infinity in arithmetic and the sign of zero are not modelled (NaN and the infinities are)",
	"static types of values that are not any/unknown are trusted at function entry and on heap reads",
	"a property explicitly set to undefined is not distinguished from an absent one, except where key enumeration is modelled",
	"no getters, proxies or prototype mutation on data objects; built-ins are not patched",
	"partial correctness: termination is not proved (the cross-check reports calls that do not return)",
];
interface Known { property: string; contract: string; clause?: string; args?: string; proof?: string; what: string }
function loadKnown(): Known[] {
	const f = path.join(VERIF, "known-findings.jsonl");
	if (!fs.existsSync(f)) return [];
	return fs.readFileSync(f, "utf-8").split("\n").filter((l) => l.trim().startsWith("{")).map((l) => JSON.parse(l)).filter((x) => !x.fixed);
}
main().catch((e) => { console.error(e?.stack ?? e); process.exitCode = 2; });
