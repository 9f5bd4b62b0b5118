// SMT back ends.
import { spawn, spawnSync } from "node:child_process";
import os from "node:os";
import * as T from "./term.ts";
import type { Term } from "./term.ts";

export function script(hyps: Term[], goal: Term, mode: T.StrMode, opts: { get?: Term[]; ematch?: boolean; logic?: string } = {}): string {
	const p = new T.Printer(mode);
	const all = [...hyps, T.not(goal), ...(opts.get ?? [])];
	const printed = p.printAll(all);
	const lines: string[] = [];
	if (opts.logic) lines.push(`(set-logic ${opts.logic})`);
	lines.push(T.PRELUDE(mode));
	for (const d of p.usedDecls) {
		const x = T.decls.get(d)!;
		lines.push(`(declare-fun ${quote(d)} (${x.args.map((a) => p.sortStr(a)).join(" ")}) ${p.sortStr(x.ret)})`);
	}
	lines.push(...p.defs);
	const n = hyps.length + 1;
	for (let i = 0; i < n; i++) lines.push(`(assert ${printed[i]})${i < hyps.length && T.hints.has(hyps[i].id) ? " ;hint" : ""}`);
	lines.push("(check-sat)");
	if (opts.get?.length) for (let i = 0; i < opts.get.length; i++) lines.push(`(get-value (${printed[n + i]}))`);
	(script as any).strIds = p.strIds;
	return lines.join("\n");
}
const quote = (n: string) => (/^[A-Za-z_][A-Za-z0-9_!.]*$/.test(n) ? n : `|${n}|`);
/** drop hypotheses that share no symbols (transitively) with the goal */
export function cone(hyps: Term[], goal: Term, pc: Term[], depth = 99): Term[] {
	const symsOf = new Map<number, Set<string>>();
	const syms = (t: Term): Set<string> => {
		const c = symsOf.get(t.id);
		if (c) return c;
		const s = new Set<string>();
		if ((t.op === "const" || t.op === "app") && !/^(A!|tag$|H\d+_#)/.test(t.name!)) s.add(t.name!);
		for (const a of t.args) for (const x of syms(a)) s.add(x);
		symsOf.set(t.id, s);
		return s;
	};
	const live = new Set(syms(goal));
	for (const p of pc) for (const x of syms(p)) live.add(x);
	let rest = hyps.slice();
	const out: Term[] = [];
	for (let d = 0; d < depth; d++) {
		const next: Term[] = [];
		let grew = false;
		for (const h of rest) {
			const s = syms(h);
			let hit = s.size === 0;
			for (const x of s) if (live.has(x)) { hit = true; break; }
			if (hit) { out.push(h); for (const x of s) if (!live.has(x)) { live.add(x); grew = true; } } else next.push(h);
		}
		rest = next;
		if (!grew) break;
	}
	return out;
}
const symCache = new Map<number, Set<string>>();
function symbolsOf(t: Term): Set<string> {
	const c = symCache.get(t.id);
	if (c) return c;
	const s = new Set<string>();
	if (t.op === "const" || t.op === "app") s.add(t.name!);
	for (const a of t.args) for (const x of symbolsOf(a)) s.add(x);
	symCache.set(t.id, s);
	return s;
}
export function resetSymbols() { symCache.clear(); }
/** the hypotheses most related to the goal (by shared rare symbols); dropping hypotheses is always sound */
export function relevant(hyps: Term[], goal: Term, max = 120): Term[] {
	const freq = new Map<string, number>();
	for (const h of hyps) for (const x of symbolsOf(h)) freq.set(x, (freq.get(x) ?? 0) + 1);
	const w = (x: string) => 1 / Math.sqrt(freq.get(x) ?? 1);
	const live = new Set(symbolsOf(goal));
	const out = new Set<Term>();
	let p = 0.45;
	for (let round = 0; round < 12 && out.size < max; round++) {
		const scored: { h: Term; r: number }[] = [];
		for (const h of hyps) {
			if (out.has(h)) continue;
			let m = 0, i = 0;
			for (const x of symbolsOf(h)) if (live.has(x)) m += w(x); else i += w(x);
			const r = m / (m + i || 1);
			if (r >= p || symbolsOf(h).size === 0) scored.push({ h, r });
		}
		if (!scored.length) { if (p <= 0.2) break; p -= 0.1; continue; }
		scored.sort((a, b) => b.r - a.r);
		const take = scored.slice(0, Math.max(25, Math.ceil(scored.length / 2)));
		for (const { h } of take) { if (out.size >= max) break; out.add(h); }
		for (const { h } of take) if (out.has(h)) for (const x of symbolsOf(h)) live.add(x);
	}
	return hyps.filter((h) => out.has(h));
}
export interface Back { name: string; cmd: string; args: string[] }
export const Z3 = (t: number): Back => ({ name: "z3-new", cmd: "z3-new", args: ["-in", "-smt2", `-T:${Math.ceil(t / 1000)}`] });
export const Z3E = (t: number): Back => ({ name: "z3-new(ematching)", cmd: "z3-new", args: ["-in", "-smt2", `-T:${Math.ceil(t / 1000)}`, "smt.mbqi=false", "smt.auto_config=false"] });
export const CVC5 = (t: number): Back => ({ name: "cvc5", cmd: "cvc5", args: ["--lang=smt2", `--tlimit=${t}`, "--strings-exp", "--arrays-exp", "-"] });
export const CVC5F = (t: number): Back => ({ name: "cvc5(full-saturate)", cmd: "cvc5", args: ["--lang=smt2", `--tlimit=${t}`, "--strings-exp", "--arrays-exp", "--full-saturate-quant", "-"] });
/** conditions on which arrays were merged, innermost first: branches of the program joined by ite */
function mergeConditions(ts: Term[], max: number): Term[] {
	const seen = new Set<number>();
	const out: Term[] = [];
	const go = (t: Term) => {
		if (out.length >= max || seen.has(t.id)) return;
		seen.add(t.id);
		if (t.op === "ite" && (t.sort.startsWith("(Array") || t.args[1].op === "select" && (t.args[1].args[0].op === "store" || t.args[2].op === "select" && t.args[2].args[0].op === "store")) && t.args[0].fv.size === 0 && !out.includes(t.args[0])) out.push(t.args[0]);
		for (const a of t.args) go(a);
	};
	for (const t of ts) go(t);
	return out;
}
/** proof by cases on merged arrays: a list of sequents that together imply the given one */
export function caseSplit(hyps: Term[], goal: Term, depth = 3): { hyps: Term[]; goal: Term }[] {
	if (depth === 0) return [{ hyps, goal }];
	const c = mergeConditions([goal, ...hyps.slice().reverse()], 1)[0];
	if (!c) return [{ hyps, goal }];
	const out: { hyps: Term[]; goal: Term }[] = [];
	for (const v of [T.TRUE, T.FALSE]) {
		const memo = new Map<number, Term>();
		const h = hyps.map((x) => T.replace(x, c, v, memo)).filter((x) => x !== T.TRUE);
		if (h.includes(T.FALSE)) continue;
		const g = T.replace(goal, c, v, memo);
		if (g === T.TRUE) continue;
		out.push(...caseSplit([...h, v === T.TRUE ? c : T.not(c)], g, depth - 1));
	}
	return out;
}
export function checkSync(hyps: Term[], goal: Term, mode: T.StrMode, ms: number): boolean {
	const r = checkOne(hyps, goal, mode, ms);
	if (r !== undefined) return r;
	const cases = caseSplit(hyps, goal);
	return cases.length !== 1 && cases.every((c) => checkOne(c.hyps, c.goal, mode, ms) === true);
}
function checkOne(hyps: Term[], goal: Term, mode: T.StrMode, ms: number): boolean | undefined {
	for (const b of [Z3E(ms), Z3(ms)]) {
		const r = spawnSync(b.cmd, b.args, { input: script(hyps, goal, mode), encoding: "utf-8", maxBuffer: 1 << 28, timeout: ms + 2000 });
		if (/^unsat/m.test(r.stdout)) return true;
		if (/^sat/m.test(r.stdout)) return false;
		if (/error/.test(r.stdout)) throw new Error("solver: " + r.stdout.slice(0, 400));
	}
	return undefined;
}
export interface SolveResult { status: "unsat" | "sat" | "unknown" | "error"; back: string; ms: number; out: string }
export function runBack(b: Back, smt: string, ms: number): { p: Promise<SolveResult>; kill: () => void } {
	const t0 = Date.now();
	const ch = spawn(b.cmd, b.args, { stdio: ["pipe", "pipe", "pipe"] });
	let out = "";
	ch.stdout.on("data", (d) => { out += d; });
	ch.stderr.on("data", (d) => { out += d; });
	ch.stdin.on("error", () => {});
	ch.stdin.end(b.name.startsWith("cvc5") ? `(set-logic ALL)\n${smt}` : smt);
	let done = false;
	const p = new Promise<SolveResult>((res) => {
		const timer = setTimeout(() => ch.kill("SIGKILL"), ms + 1500);
		ch.on("close", () => {
			clearTimeout(timer);
			done = true;
			const first = out.split("\n").find((l) => /^(unsat|sat|unknown|timeout)/.test(l)) ?? "";
			const status = first === "unsat" ? "unsat" : first === "sat" ? "sat" : /\(error/.test(out) && !first ? "error" : "unknown";
			res({ status, back: b.name, ms: Date.now() - t0, out });
		});
		ch.on("error", (e) => { clearTimeout(timer); res({ status: "error", back: b.name, ms: Date.now() - t0, out: String(e) }); });
	});
	return { p, kill: () => { if (!done) ch.kill("SIGKILL"); } };
}
/** portfolio: first unsat wins; sat only counts when no back end proves it */
export async function portfolio(smt: string, backs: Back[], ms: number): Promise<SolveResult> {
	const runs = backs.map((b) => runBack(b, smt, ms));
	if (/ ;hint$/m.test(smt)) {
		// the same obligation without the lemma instances
		const alt = smt.split("\n").filter((l) => !l.endsWith(" ;hint")).join("\n");
		for (const b of backs) if (b.name.startsWith("z3")) runs.push(runBack(b, alt, ms));
	}
	return new Promise((res) => {
		let left = runs.length;
		let best: SolveResult | undefined;
		let decided = false;
		for (const r of runs) r.p.then((x) => {
			left--;
			if (decided) return;
			if (x.status === "unsat" || x.status === "sat") { decided = true; for (const q of runs) q.kill(); res(x); return; }
			if (!best || (best.status === "error" && x.status !== "error")) best = x;
			if (left === 0) { decided = true; res(best!); }
		});
	});
}
export async function pool<T, R>(items: T[], n: number, f: (t: T, i: number) => Promise<R>): Promise<R[]> {
	const out: R[] = new Array(items.length);
	let next = 0;
	await Promise.all(Array.from({ length: Math.min(n, items.length) }, async () => { while (next < items.length) { const i = next++; out[i] = await f(items[i], i); } }));
	return out;
}
export const cores = () => Math.max(2, os.availableParallelism?.() ?? 4);
