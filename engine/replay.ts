// Re-runs the failing input of a replay file on the real code. usage: node engine/replay.ts replay/C02.json
import fs from "node:fs";
import path from "node:path";
import os from "node:os";
import { spawnSync } from "node:child_process";
import ts from "./tsapi.ts";
import { loadProgram, findContracts, resolveTarget } from "./verify.ts";
import { Engine } from "./exec.ts";
const r = JSON.parse(fs.readFileSync(process.argv[2], "utf-8"));
if (r.iteration === undefined) { console.log(`no failing input; undischarged obligation: ${r.failedObligation}\n${r.verifierOutput ?? ""}`); process.exit(1); }
const file = path.resolve(import.meta.dirname, `../contracts/${r.property}.ts`);
const program = loadProgram(file);
const c = findContracts(program, file).find((x) => x.name === r.contract)!;
const decl: any = resolveTarget(new Engine(program), c.get("target")!);
const method = (ts.isMethodDeclaration(decl) || ts.isGetAccessorDeclaration(decl)) && !ts.isObjectLiteralExpression(decl.parent) && !decl.modifiers?.some((m: any) => m.kind === ts.SyntaxKind.StaticKeyword);
const job = path.join(os.tmpdir(), `replay-${process.pid}.json`);
fs.writeFileSync(job, JSON.stringify({ file, contract: r.contract, seconds: 60, maxIter: 1, seed: r.seed, lits: r.lits ?? { str: [], num: [] }, from: r.iteration, replay: true, restAt: decl.parameters.findIndex((p: any) => p.dotDotDotToken), method }));
const x = spawnSync(process.execPath, ["--conditions=pi-source", "--no-warnings", path.join(import.meta.dirname, "runtime.ts"), job], { encoding: "utf-8" });
fs.unlinkSync(job);
const f = JSON.parse(x.stdout.match(/@@RESULT (.*)/)![1]).failure;
console.log(f ? `${r.contract}: ${f.clause}\ninput ${f.args}\nobserved ${f.detail}` : "the input no longer fails");
process.exit(f ? 1 : 0);
