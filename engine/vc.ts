import path from "node:path";
import fs from "node:fs";
import { loadProgram, findContracts, generate } from "./verify.ts";
import { script, portfolio, Z3, Z3E, CVC5, pool, checkSync, relevant, resetSymbols } from "./solve.ts";
import { Engine } from "./exec.ts";
const id = process.argv[2], only = process.argv[3];
const file = path.resolve(import.meta.dirname, `../contracts/${id}.ts`);
(Engine.prototype as any).prover = (h: any, g: any, m: any) => checkSync(h, g, m, Number(process.env.HT ?? 4000));
let t = Date.now();
const program = loadProgram(file);
console.log("program", Date.now() - t, "ms", program.getSourceFiles().length, "files");
for (const c of findContracts(program, file)) {
	if (only && !c.name.includes(only)) continue;
	if (c.get("runtimeOnly")) continue;
	resetSymbols(); const t1 = Date.now(); const r = generate(program, c);
	console.log(`== ${c.name} [${r.target}] ${r.obligations.length} obligations, ${r.paths} paths, ${r.genMs} ms`, r.error ?? "");
	for (const n of new Set(r.loopNotes.map((n) => JSON.stringify(n)))) console.log("   loop", n.slice(0, 600));
	const SL = Number(process.env.SL ?? 0);
	const scripts = r.obligations.map((o) => SL && o.goal.op !== 'true' ? script(relevant([...r.engine.baseFacts, ...o.facts, ...o.pc], o.goal, SL), o.goal, r.engine.strMode) : (o.goal.op === "true" ? "" : script([...r.engine.baseFacts, ...o.facts, ...o.pc], o.goal, r.engine.strMode)));
	await pool(r.obligations, 8, async (o, i) => {
		if (!scripts[i]) { if (process.env.V) console.log("  triv ", o.name); return; }
		fs.mkdirSync("/tmp/vc", { recursive: true });
		fs.writeFileSync(`/tmp/vc/${id}_${c.name.replace(/\W/g, "_")}_${i}.smt2`, scripts[i]);
		const x = await portfolio(scripts[i], [Z3E(15000), Z3(15000)], 15000);
		if (x.status !== "unsat" || process.env.V) console.log("  ", x.status, x.back, x.ms, o.name, i, x.status === "error" ? x.out.slice(0, 500) : "");
	});
}
