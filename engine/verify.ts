// Contract loading and verification-condition generation.
import ts from "./tsapi.ts";
import path from "node:path";
import fs from "node:fs";
import * as T from "./term.ts";
import type { Term } from "./term.ts";
import { Engine, TAG } from "./exec.ts";
import type { Obligation } from "./exec.ts";
import "./loops.ts";
import { Unsupported, where, UNDEF, svBool, svRef, svVal, box, truthy, Cell, Scope, State, Exits, Heap, pcT } from "./sym.ts";
import type { SV, Out } from "./sym.ts";

export const REPO = process.env.VERIF_REPO ?? "/repo";
export function loadProgram(file: string): ts.Program {
	const cfg = ts.readConfigFile(path.join(REPO, "tsconfig.json"), ts.sys.readFile).config;
	const rawPaths: Record<string, string[]> = cfg.compilerOptions?.paths ?? {};
	const paths: Record<string, string[]> = {};
	for (const [k, v] of Object.entries(rawPaths)) if (k !== "*") paths[k] = v.map((x) => path.join(REPO, x));
	const options: ts.CompilerOptions = {
		target: ts.ScriptTarget.ES2023, lib: ["lib.esnext.d.ts"], module: ts.ModuleKind.ESNext, moduleResolution: ts.ModuleResolutionKind.Bundler,
		customConditions: ["pi-source"], strict: true, noUncheckedIndexedAccess: true, noEmit: true, allowImportingTsExtensions: true, skipLibCheck: true, skipDefaultLibCheck: true,
		paths, baseUrl: REPO, types: ["node"], typeRoots: [path.join(REPO, "node_modules/@types")], resolveJsonModule: true, esModuleInterop: true,
	};
	const host = ts.createCompilerHost(options, true);
	return ts.createProgram([file], options, host);
}

export interface LoadedContract {
	varName: string; name: string; lit: ts.ObjectLiteralExpression;
	get(k: string): ts.Expression | undefined;
	entries(k: string): [string, ts.Expression][];
	line: string;
}
export function findContracts(program: ts.Program, file: string): LoadedContract[] {
	const sf = program.getSourceFile(file)!;
	const out: LoadedContract[] = [];
	const visit = (n: ts.Node) => {
		if (ts.isCallExpression(n) && ts.isIdentifier(n.expression) && n.expression.text === "contract" && n.arguments[0] && ts.isObjectLiteralExpression(n.arguments[0])) {
			const lit = n.arguments[0];
			const get = (k: string): ts.Expression | undefined => {
				for (const p of lit.properties) {
					if (ts.isPropertyAssignment(p) && p.name.getText().replace(/["']/g, "") === k) return p.initializer;
					if (ts.isMethodDeclaration(p) && p.name.getText() === k) return p as any;
					if (ts.isShorthandPropertyAssignment(p) && p.name.text === k) return p.name;
				}
				return undefined;
			};
			const entries = (k: string): [string, ts.Expression][] => {
				let e = get(k);
				if (e && ts.isIdentifier(e)) {
					const d = declOf(program.getTypeChecker(), e);
					if (d && ts.isVariableDeclaration(d) && d.initializer) e = d.initializer;
				}
				if (e && (ts.isAsExpression(e) || ts.isSatisfiesExpression(e))) e = e.expression;
				if (!e || !ts.isObjectLiteralExpression(e)) return [];
				const r: [string, ts.Expression][] = [];
				for (const p of e.properties) {
					if (ts.isPropertyAssignment(p)) r.push([p.name.getText().replace(/^["']|["']$/g, ""), p.initializer]);
					else if (ts.isSpreadAssignment(p) && ts.isIdentifier(p.expression)) {
						const d = declOf(program.getTypeChecker(), p.expression);
						if (d && ts.isVariableDeclaration(d) && d.initializer && ts.isObjectLiteralExpression(d.initializer))
							for (const q of d.initializer.properties) if (ts.isPropertyAssignment(q)) r.push([q.name.getText().replace(/^["']|["']$/g, ""), q.initializer]);
					} else throw new Error(`contract ${k}: unsupported entry ${p.getText().slice(0, 60)}`);
				}
				return r;
			};
			const nm = get("name");
			out.push({ varName: "", name: nm && ts.isStringLiteral(nm) ? nm.text : "?", lit, get, entries, line: where(n) });
		}
		n.forEachChild(visit);
	};
	visit(sf);
	return out;
}
export interface VCResult {
	contract: string; target: string; obligations: Obligation[]; inlined: string[]; assumptions: string[]; loopNotes: any[];
	error?: string; paths: number; genMs: number; covers: { name: string; facts: Term[]; pc: Term[] }[]; engine: Engine; argTerms: { name: string; ty: ts.Type; v: SV }[];
}
function literalOf(e: ts.Expression | undefined): any {
	if (!e) return undefined;
	if (ts.isAsExpression(e) || ts.isSatisfiesExpression(e)) return literalOf(e.expression);
	if (ts.isStringLiteral(e) || ts.isNoSubstitutionTemplateLiteral(e)) return e.text;
	if (ts.isNumericLiteral(e)) return Number(e.text);
	if (e.kind === ts.SyntaxKind.TrueKeyword) return true;
	if (e.kind === ts.SyntaxKind.FalseKeyword) return false;
	if (ts.isArrayLiteralExpression(e)) return e.elements.map((x) => literalOf(x as ts.Expression));
	if (ts.isObjectLiteralExpression(e)) {
		const r: any = {};
		for (const p of e.properties) if (ts.isPropertyAssignment(p)) r[p.name.getText().replace(/^["']|["']$/g, "")] = literalOf(p.initializer);
		return r;
	}
	return undefined;
}
export { literalOf };
/** the declaration behind an identifier, through imports and shorthand properties */
function declOf(checker: ts.TypeChecker, x: ts.Node): ts.Declaration | undefined {
	let s: ts.Symbol | undefined = x.parent && ts.isShorthandPropertyAssignment(x.parent) ? checker.getShorthandAssignmentValueSymbol(x.parent) : checker.getSymbolAtLocation(x);
	if (s && s.flags & ts.SymbolFlags.Alias) s = checker.getAliasedSymbol(s);
	return s?.valueDeclaration;
}
function resolveLit(e: Engine, x: ts.Expression | undefined): ts.Expression | undefined {
	if (x && ts.isIdentifier(x)) { const d = declOf(e.checker, x); if (d && ts.isVariableDeclaration(d)) return d.initializer; }
	return x;
}
/** literal configuration objects may spread shared constants */
function configOf(e: Engine, x0: ts.Expression | undefined): any {
	let x = resolveLit(e, x0);
	while (x && (ts.isAsExpression(x) || ts.isSatisfiesExpression(x))) x = x.expression;
	if (!x || !ts.isObjectLiteralExpression(x)) return {};
	const r: any = {};
	for (const p of x.properties) {
		if (ts.isPropertyAssignment(p)) r[p.name.getText().replace(/^["']|["']$/g, "")] = literalOf(p.initializer);
		else if (ts.isSpreadAssignment(p)) Object.assign(r, configOf(e, p.expression));
	}
	return r;
}

export function generate(program: ts.Program, c: LoadedContract): VCResult {
	const t0 = Date.now();
	const e = new Engine(program);
	e.reset();
	const lit = (k: string) => literalOf(c.get(k));
	e.counting = /\b(countTo|sumTo)\(/.test(c.lit.getSourceFile().text);
	e.strMode = (lit("strings") ?? "U") as T.StrMode;
	if (lit("unroll")) e.unrollLimit = lit("unroll");
	for (const [k, v] of Object.entries(configOf(e, c.get("refine")))) { e.refine.set(k, v as string); e.assumptions.add(`number refinement: every field or parameter named '${k}' is ${v}`); }
	for (const [k, v] of Object.entries(configOf(e, c.get("ext")))) e.ext.set(k, v as any);
	for (const [nm, f] of c.entries("axioms")) { const fe = resolveLit(e, f); if (!fe || !ts.isArrowFunction(fe)) throw new Error("axiom must be an arrow function"); e.axioms.set(nm, { fn: fe, scope: new Scope() }); }
	for (const a of (lit("assumes") ?? []) as string[]) e.assumptions.add(a);
	const res: VCResult = { contract: c.name, target: "?", obligations: e.obligations, inlined: [], assumptions: [], loopNotes: e.loopNotes, paths: 0, genMs: 0, covers: [], engine: e, argTerms: [] };
	const finish = () => { res.inlined = [...e.inlined]; res.assumptions = [...e.assumptions]; res.genMs = Date.now() - t0; return res; };
	try {
		const tgtE = c.get("target");
		if (!tgtE) throw new Error("contract without target");
		const decl = resolveTarget(e, tgtE);
		res.target = `${where(decl)}#${tgtE.getText()}`;
		e.curFn = c.name;
		const sig = e.checker.getSignatureFromDeclaration(decl as any)!;
		const st = new State(new Heap({ kind: "base", id: 0, A: T.konst("A!0", "Int") }));
		for (const m of e.ext.values()) if (m.effect) e.hwrite(st, `ghost:${m.effect}`, T.int(1), T.ctor("NI", T.int(0)));
		st.writes = [];
		// receiver and parameters
		const params: SV[] = [];
		let self: SV | undefined;
		const isMethod = ts.isMethodDeclaration(decl) && !ts.isObjectLiteralExpression(decl.parent) && !decl.modifiers?.some((m) => m.kind === ts.SyntaxKind.StaticKeyword);
		if (isMethod || ts.isConstructorDeclaration(decl) && false) {
			const cls = decl.parent as ts.ClassDeclaration;
			const cty = e.checker.getDeclaredTypeOfSymbol(e.checker.getSymbolAtLocation(cls.name!)!);
			self = e.symbolicParam("self", cty, st);
			if (self.k !== "ref") self = svRef(T.sel("rv", box(self)));
			e.addFact(T.eq(e.tag((self as any).t), T.int(TAG.CLASS + e.classId(cls))));
			e.oldRefs.set((self as any).t.id, { base: T.konst("A!0", "Int"), n: 0 });
			res.argTerms.push({ name: "self", ty: cty, v: self });
		}
		for (const p of decl.parameters) {
			const pn = ts.isIdentifier(p.name) ? p.name.text : `p${params.length}`;
			let ty = e.typeOf(p);
			if (p.questionToken || p.initializer) ty = e.checker.getNullableType(ty, ts.TypeFlags.Undefined);
			const v = e.symbolicParam(pn, ty, st);
			res.argTerms.push({ name: pn, ty, v });
			if (p.dotDotDotToken) { (params as any).rest = v; params.push(v); continue; }
			params.push(v);
		}
		const specParams = self ? [self, ...params] : params;
		const evalFn = (fnE: ts.Expression, args: SV[], s: State): { v: SV; ok: Term; s: State } => {
			const fe = resolveLit(e, fnE)!;
			const s2 = s.fork();
			s2.writes = null;
			const base = s2.pc.length;
			e.specMode++;
			try {
				const ex = new Exits();
				const f = e.eval(fe, s2, new Scope(), ex);
				if (f.k !== "fn") throw new Unsupported("contract clause is not a function", fe);
				const v = e.callFn(f.f, args.slice(0, f.f.decl!.parameters.length), s2, ex, fe);
				if (s2.dead) return { v: UNDEF, ok: T.FALSE, s: s2 };
				return { v, ok: T.and(...s2.pc.slice(base)), s: s2 };
			} finally { e.specMode--; }
		};
		// preconditions
		const req = c.get("requires");
		if (req) {
			const r = evalFn(req, specParams, st);
			st.assume(r.ok);
			st.assume(truthy(r.v));
		}
		// invariants
		for (const [nm, f] of c.entries("invariants")) {
			const fe = resolveLit(e, f)!;
			if (!ts.isArrowFunction(fe)) throw new Error("invariant must be an arrow function");
			e.invs.push({ fn: fe, scope: new Scope(), name: nm });
		}
		let old: SV = UNDEF;
		const pre = c.get("pre");
		if (pre) {
			const s2 = st.fork();
			s2.writes = null;
			e.specMode++;
			try {
				const ex = new Exits();
				const f = e.eval(resolveLit(e, pre)!, s2, new Scope(), ex);
				old = e.callFn((f as any).f, specParams.slice(0, (f as any).f.decl.parameters.length), s2, ex, pre);
			} finally { e.specMode--; }
			const w = st.writes;
			st.set(s2); st.writes = w;
		}
		const entryHeap = st.heap.clone();
		const entryA = e.Anow;
		st.writes = [];
		// run
		const callArgs: any = (params as any).rest ? params.slice(0, -1) : [...params];
		if ((params as any).rest) {
			const rest = (params as any).rest as SV;
			callArgs.spread = { at: callArgs.length, seq: e.seqOf(rest, e.typeOf(decl.parameters[decl.parameters.length - 1]), st, new Exits(), decl) };
		}
		const exits = new Exits();
		const sc = new Scope();
		if (self) sc.thisV = self;
		sc.fnDecl = decl;
		e.fnStack.push(decl);
		e.inlined.add(`${where(decl).split(":")[0]}#${tgtE.getText()}`);
		e.bindParams(decl as any, callArgs, st, sc, exits);
		const body = (decl as any).body as ts.Node;
		if (ts.isBlock(body)) {
			e.execBlock(body.statements, st, sc, exits);
			if (!st.dead) exits.returns.push({ st: st.fork(), v: UNDEF, node: body });
		} else {
			const v = e.eval(body as ts.Expression, st, sc, exits);
			if (!st.dead) exits.returns.push({ st: st.fork(), v, node: body });
		}
		e.fnStack.pop();
		const returns = exits.returns.filter((o) => !o.st.dead), throws = exits.throws.filter((o) => !o.st.dead);
		res.paths = returns.length + throws.length;
		const label = (o: Out, i: number, kind: string) => `${kind}${o.node ? `@${where(o.node).split("/").pop()}` : ""}#${i}`;
		const retTy = e.checker.getReturnTypeOfSignature(sig);
		const awaited = (e.checker as any).getAwaitedType?.(retTy) ?? retTy;
		const ens = c.entries("ensures");
		returns.forEach((o, i) => {
			const l = label(o, i, "return");
			let rv = o.v;
			if (rv.k === "val" && !rv.raw) rv = e.unbox(rv, awaited);
			res.covers.push({ name: l, facts: e.facts.slice(), pc: o.st.pc });
			for (const [nm, f] of ens) {
				const snap = e.snapshot(false);
				const r = evalFn(f, [rv, old, ...specParams], o.st);
				e.oblige(`${c.name}: ${nm} [${l}]`, "postcondition", T.and(r.ok, truthy(r.v)), o.st.pc, nm);
				e.restore(snap);
			}
			const mt = c.get("mustThrow");
			if (mt) {
				const snap = e.snapshot(false);
				const r = evalFn(mt, specParams, pcState(o.st, entryHeap));
				e.oblige(`${c.name}: returns normally only when permitted [${l}]`, "postcondition", T.not(T.and(r.ok, truthy(r.v))), o.st.pc, "mustThrow");
				e.restore(snap);
			}
			frame(o, l);
		});
		const mt = c.get("mayThrow");
		throws.forEach((o, i) => {
			const l = label(o, i, "throw");
			if (!mt || mt.kind === ts.SyntaxKind.FalseKeyword) e.oblige(`${c.name}: no exception escapes [${l}]`, "no-throw", T.FALSE, o.st.pc, "mayThrow");
			else if (mt.kind !== ts.SyntaxKind.TrueKeyword) {
				const snap = e.snapshot(false);
				const r = evalFn(mt, specParams, pcState(o.st, entryHeap));
				e.oblige(`${c.name}: throws only when permitted [${l}]`, "exceptional", T.and(r.ok, truthy(r.v)), o.st.pc, "mayThrow");
				e.restore(snap);
			}
			for (const [nm, f] of c.entries("onThrow")) {
				const snap = e.snapshot(false);
				const r = evalFn(f, [old, ...specParams], o.st);
				e.oblige(`${c.name}: on throw, ${nm} [${l}]`, "exceptional", T.and(r.ok, truthy(r.v)), o.st.pc, nm);
				e.restore(snap);
			}
			frame(o, l);
		});
		function frame(o: Out, l: string) {
			if (lit("frame") !== "pure") return;
			const mods: Term[] = [];
			const me = c.get("modifies");
			if (me) {
				const r = evalFn(me, specParams, pcState(o.st, entryHeap));
				const a = r.v;
				if (a.k !== "ref") throw new Unsupported("modifies must return an array literal", me);
				const len = e.hread(r.s.heap, "#len", a.t), el = e.hread(r.s.heap, "#el", a.t);
				for (let i = 0; i < Number(len.name); i++) mods.push(T.sel("rv", T.select(el, T.int(i))));
			}
			const fields = new Set([...o.st.heap.m.keys()]);
			let any = false;
			for (const f of fields) {
				if (f.startsWith("ghost:")) continue;
				const h1 = e.heapGet(o.st.heap, f), h0 = e.heapGet(entryHeap, f);
				if (h1 === h0 || e.onlyFresh(h1, h0)) continue;
				any = true;
				const r = T.konst(T.freshName("fr"), "Int");
				e.oblige(`${c.name}: frame of field '${f}' [${l}]`, "frame", T.eq(T.select(h1, r), T.select(h0, r)), [...o.st.pc, T.lt(r, T.konst("A!0", "Int")), ...mods.map((m) => T.not(T.eq(m, r)))], "frame");
			}
			if (!any) e.oblige(`${c.name}: frame [${l}]`, "frame", T.TRUE, o.st.pc, "frame");
			void entryA;
		}
	} catch (x) {
		if (x instanceof Unsupported) res.error = x.message;
		else { res.error = `internal: ${(x as Error).message}\n${(x as Error).stack?.split("\n").slice(1, 8).join("\n")}`; }
	}
	return finish();
}
function pcState(s: State, heap: Heap): State { const r = s.fork(); r.heap = heap.clone(); return r; }
export function resolveTarget(e: Engine, x: ts.Expression): ts.FunctionLikeDeclaration {
	if (ts.isAsExpression(x) || ts.isParenthesizedExpression(x)) return resolveTarget(e, x.expression);
	if (ts.isCallExpression(x) && ts.isIdentifier(x.expression) && x.expression.text === "internal") {
		// internal(module file, "name"): a function that the module does not export
		const file = (resolveLit(e, x.arguments[0]) as ts.StringLiteral).text, nm = (x.arguments[1] as ts.StringLiteral).text;
		const sf = e.program.getSourceFile(path.join(REPO, file));
		if (!sf) throw new Unsupported(`source file ${file} is not part of the program`);
		for (const s of sf.statements) {
			if (ts.isFunctionDeclaration(s) && s.name?.text === nm && s.body) return s;
			if (ts.isClassDeclaration(s)) for (const m of s.members) if (ts.isMethodDeclaration(m) && m.body && `${s.name?.text}.${m.name.getText()}` === nm) return m;
		}
		throw new Unsupported(`function ${nm} not found in ${file}`);
	}
	if (ts.isPropertyAccessExpression(x)) {
		const s = e.checker.getSymbolAtLocation(x.name);
		const d = s?.declarations?.find((q) => (ts.isMethodDeclaration(q) || ts.isGetAccessorDeclaration(q)) && (q as any).body);
		if (d) return d as any;
		throw new Unsupported(`target ${x.getText()} has no body`);
	}
	const s = e.symbolOf(x);
	const d = s?.declarations?.find((q) => ts.isFunctionDeclaration(q) && q.body);
	if (d) return d as any;
	const v = s?.valueDeclaration;
	if (v && ts.isVariableDeclaration(v) && v.initializer && (ts.isArrowFunction(v.initializer) || ts.isFunctionExpression(v.initializer))) return v.initializer;
	throw new Unsupported(`target ${x.getText()} not found`);
}
