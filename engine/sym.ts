// Symbolic execution of TypeScript into verification conditions.
import ts from "./tsapi.ts";
import * as T from "./term.ts";
import type { Term, Sort } from "./term.ts";

export class Unsupported extends Error {
	node?: ts.Node;
	constructor(msg: string, node?: ts.Node) {
		super(msg + (node ? ` at ${where(node)}: ${node.getText().slice(0, 90).replace(/\s+/g, " ")}` : ""));
		this.node = node;
	}
}
export function where(n: ts.Node): string {
	const sf = n.getSourceFile();
	const p = sf.getLineAndCharacterOfPosition(n.getStart());
	return `${sf.fileName.replace(/^.*\/(packages|verif)\//, "$1/")}:${p.line + 1}`;
}

export type SV =
	| { k: "undef" } | { k: "null" }
	| { k: "bool"; t: Term } | { k: "int"; t: Term } | { k: "real"; t: Term } | { k: "str"; t: Term }
	| { k: "ref"; t: Term; raw?: boolean }
	| { k: "val"; t: Term; raw?: boolean; ty?: ts.Type; rf?: string }
	| { k: "fn"; f: FnVal };
export interface FnVal {
	id: number;
	decl?: ts.FunctionLikeDeclaration;
	scope?: Scope;
	thisV?: SV;
	builtin?: (args: SV[], st: State, ex: Exits, node: ts.Node) => SV;
	name: string;
	cls?: ts.ClassLikeDeclaration;
}
export const UNDEF: SV = { k: "undef" };
export const NUL: SV = { k: "null" };
export const svBool = (t: Term): SV => ({ k: "bool", t });
export const svInt = (t: Term): SV => ({ k: "int", t });
export const svStr = (t: Term): SV => ({ k: "str", t });
export const svStrLit = (s: string): SV => ({ k: "str", t: T.strLit(s) });
export const svRef = (t: Term): SV => ({ k: "ref", t });
export const svVal = (t: Term, raw?: boolean): SV => simplifyVal({ k: "val", t, raw });
export function simplifyVal(v: SV & { k: "val" }): SV {
	switch (v.t.op) {
		case "Undef": return UNDEF;
		case "Null": return NUL;
		case "B": return { k: "bool", t: v.t.args[0] };
		case "NI": return { k: "int", t: v.t.args[0] };
		case "NR": return { k: "real", t: v.t.args[0] };
		case "S": return { k: "str", t: v.t.args[0] };
		case "R": return { k: "ref", t: v.t.args[0], raw: v.raw };
		case "F": {
			const a = v.t.args[0];
			if (a.op === "int") { const f = fnTable.get(Number(a.name)); if (f) return { k: "fn", f }; }
		}
	}
	return v;
}
export const fnTable = new Map<number, FnVal>();
let nextFn = 1;
export function mkFn(f: Omit<FnVal, "id">): SV {
	const fv: FnVal = { ...f, id: nextFn++ };
	fnTable.set(fv.id, fv);
	return { k: "fn", f: fv };
}
export function box(v: SV): Term {
	switch (v.k) {
		case "undef": return T.UNDEF;
		case "null": return T.NULL;
		case "bool": return T.ctor("B", v.t);
		case "int": return T.ctor("NI", v.t);
		case "real": return mkNumR(v.t);
		case "str": return T.ctor("S", v.t);
		case "ref": return T.ctor("R", v.t);
		case "fn": return T.ctor("F", T.int(v.f.id));
		case "val": return v.t;
	}
}
export function mkNumR(r: Term): Term {
	const i = T.isIntR(r);
	if (i === T.TRUE) return T.ctor("NI", r.op === "reallit" ? T.int(BigInt(r.name!.replace(".0", ""))) : T.toInt(r));
	if (r.op === "reallit") return T.ctor("NR", r);
	return T.ite(i, T.ctor("NI", T.toInt(r)), T.ctor("NR", r));
}
// ---- numbers
export interface NumView { allFin: boolean; fin: Term; r: Term; isI: Term; i: Term; v: SV }
export function isNumT(v: Term): Term { return T.or(T.is("NI", v), T.is("NR", v), T.is("VNaN", v), T.is("VPInf", v), T.is("VNInf", v)); }
export function finT(v: Term): Term { return T.or(T.is("NI", v), T.is("NR", v)); }
export function view(v: SV): NumView {
	if (v.k === "int") return { allFin: true, fin: T.TRUE, r: T.toReal(v.t), isI: T.TRUE, i: v.t, v };
	if (v.k === "real") return { allFin: true, fin: T.TRUE, r: v.t, isI: T.isIntR(v.t), i: T.toInt(v.t), v };
	if (v.k === "bool") { const t = T.ite(v.t, T.int(1), T.int(0)); return view({ k: "int", t }); }
	if (v.k === "null") return view(svInt(T.int(0)));
	const b = box(v);
	const isI = T.is("NI", b);
	const fin = finT(b);
	const r = isI === T.TRUE ? T.toReal(T.sel("ni", b)) : T.ite(isI, T.toReal(T.sel("ni", b)), T.sel("nr", b));
	return { allFin: fin === T.TRUE, fin, r, isI, i: T.sel("ni", b), v };
}
export function nlt(a: SV, b: SV): Term {
	if (a.k === "int" && b.k === "int") return T.lt(a.t, b.t);
	const x = view(a), y = view(b);
	const f = T.and(x.fin, y.fin, x.isI === T.TRUE && y.isI === T.TRUE ? T.lt(x.i, y.i) : T.lt(x.r, y.r));
	if (x.allFin && y.allFin) return f;
	const ba = box(a), bb = box(b);
	return T.or(f,
		T.and(T.is("VNInf", ba), T.or(y.fin, T.is("VPInf", bb))),
		T.and(x.fin, T.is("VPInf", bb)));
}
export function nle(a: SV, b: SV): Term {
	if (a.k === "int" && b.k === "int") return T.le(a.t, b.t);
	const x = view(a), y = view(b);
	const f = T.and(x.fin, y.fin, x.isI === T.TRUE && y.isI === T.TRUE ? T.le(x.i, y.i) : T.le(x.r, y.r));
	if (x.allFin && y.allFin) return f;
	const ba = box(a), bb = box(b);
	return T.or(f,
		T.and(T.is("VNInf", ba), T.or(y.fin, T.is("VPInf", bb), T.is("VNInf", bb))),
		T.and(T.or(x.fin, T.is("VPInf", ba)), T.is("VPInf", bb)));
}
function fromR(x: NumView, y: NumView, ri: (a: Term, b: Term) => Term): Term {
	// finite result boxed
	const both = T.and(x.isI, y.isI);
	if (both === T.TRUE) return T.ctor("NI", ri(x.i, y.i));
	return T.ite(both, T.ctor("NI", ri(x.i, y.i)), mkNumR(ri(x.r, y.r)));
}
export function nadd(a: SV, b: SV): SV {
	if (a.k === "int" && b.k === "int") return svInt(T.add(a.t, b.t));
	const x = view(a), y = view(b);
	if (a.k === "real" && y.allFin || b.k === "real" && x.allFin) return { k: "real", t: T.add(x.r, y.r) };
	const fin = fromR(x, y, T.add);
	if (x.allFin && y.allFin) return svVal(fin);
	const ba = box(a), bb = box(b);
	return svVal(T.ite(T.and(x.fin, y.fin), fin,
		T.ite(T.or(T.and(T.is("VPInf", ba), T.or(y.fin, T.is("VPInf", bb))), T.and(x.fin, T.is("VPInf", bb))), T.PINF,
			T.ite(T.or(T.and(T.is("VNInf", ba), T.or(y.fin, T.is("VNInf", bb))), T.and(x.fin, T.is("VNInf", bb))), T.NINF, T.NAN))));
}
export function nneg(a: SV): SV {
	if (a.k === "int") return svInt(T.sub(T.int(0), a.t));
	if (a.k === "real") return { k: "real", t: T.sub(T.realLit("0.0"), a.t) };
	const x = view(a), b = box(a);
	return svVal(T.ite(T.is("NI", b), T.ctor("NI", T.sub(T.int(0), x.i)), T.ite(T.is("NR", b), T.ctor("NR", T.sub(T.realLit("0.0"), T.sel("nr", b))),
		T.ite(T.is("VPInf", b), T.NINF, T.ite(T.is("VNInf", b), T.PINF, T.NAN)))));
}
export function nsub(a: SV, b: SV): SV {
	if (a.k === "int" && b.k === "int") return svInt(T.sub(a.t, b.t));
	const x = view(a), y = view(b);
	if (a.k === "real" && y.allFin || b.k === "real" && x.allFin) return { k: "real", t: T.sub(x.r, y.r) };
	const fin = fromR(x, y, T.sub);
	if (x.allFin && y.allFin) return svVal(fin);
	const ba = box(a), bb = box(b);
	return svVal(T.ite(T.and(x.fin, y.fin), fin,
		T.ite(T.or(T.and(T.is("VPInf", ba), T.or(y.fin, T.is("VNInf", bb))), T.and(x.fin, T.is("VNInf", bb))), T.PINF,
			T.ite(T.or(T.and(T.is("VNInf", ba), T.or(y.fin, T.is("VPInf", bb))), T.and(x.fin, T.is("VPInf", bb))), T.NINF, T.NAN))));
}
export function nmul(a: SV, b: SV): SV {
	if (a.k === "int" && b.k === "int") return svInt(T.mul(a.t, b.t));
	const x = view(a), y = view(b);
	if (a.k === "real" && y.allFin || b.k === "real" && x.allFin) return { k: "real", t: T.mul(x.r, y.r) };
	const fin = fromR(x, y, T.mul);
	if (x.allFin && y.allFin) return svVal(fin);
	const zero = T.realLit("0.0");
	const pos = (n: NumView, bx: Term) => T.or(T.and(n.fin, T.lt(zero, n.r)), T.is("VPInf", bx));
	const neg = (n: NumView, bx: Term) => T.or(T.and(n.fin, T.lt(n.r, zero)), T.is("VNInf", bx));
	const ba = box(a), bb = box(b);
	const p = T.or(T.and(pos(x, ba), pos(y, bb)), T.and(neg(x, ba), neg(y, bb)));
	const n = T.or(T.and(pos(x, ba), neg(y, bb)), T.and(neg(x, ba), pos(y, bb)));
	return svVal(T.ite(T.and(x.fin, y.fin), fin, T.ite(p, T.PINF, T.ite(n, T.NINF, T.NAN))));
}
export function ndiv(a: SV, b: SV): SV {
	const x = view(a), y = view(b);
	const zero = T.realLit("0.0");
	const nz = y.r.op === "reallit" ? T.bool(y.r.name !== "0.0") : T.not(T.eq(y.r, zero));
	if (x.allFin && y.allFin && nz === T.TRUE) return { k: "real", t: T.rdiv(x.r, y.r) };
	const ba = box(a), bb = box(b);
	const special = T.ite(T.and(x.fin, y.fin),
		// division by (positive) zero
		T.ite(T.lt(zero, x.r), T.PINF, T.ite(T.lt(x.r, zero), T.NINF, T.NAN)),
		T.ite(T.and(x.fin, T.or(T.is("VPInf", bb), T.is("VNInf", bb))), T.ctor("NI", T.int(0)),
			T.ite(T.and(y.fin, T.is("VPInf", ba)), T.ite(T.lt(y.r, zero), T.NINF, T.PINF),
				T.ite(T.and(y.fin, T.is("VNInf", ba)), T.ite(T.lt(y.r, zero), T.PINF, T.NINF), T.NAN))));
	return svVal(T.ite(T.and(x.fin, y.fin, nz), mkNumR(T.rdiv(x.r, y.r)), special));
}
export function nfloor(a: SV): SV {
	if (a.k === "int") return a;
	if (a.k === "real") return svInt(T.toInt(a.t));
	const b = box(a);
	return svVal(T.ite(T.is("NR", b), T.ctor("NI", T.toInt(T.sel("nr", b))), T.ite(isNumT(b), b, T.NAN)));
}
export function nceil(a: SV): SV {
	if (a.k === "int") return a;
	return nneg(nfloor(nneg(a)));
}
export function ntrunc(a: SV): SV {
	if (a.k === "int") return a;
	return mergeSV(nlt(a, svInt(T.int(0))), nceil(a), nfloor(a));
}
export function nminmax(a: SV, b: SV, max: boolean): SV {
	const c = max ? nlt(a, b) : nlt(b, a);
	const base = mergeSV(c, b, a);
	const na = isNaNT(a), nb = isNaNT(b);
	if (na === T.FALSE && nb === T.FALSE) return base;
	return mergeSV(T.or(na, nb), { k: "val", t: T.NAN }, base);
}
export function isNaNT(a: SV): Term {
	if (a.k === "val") return T.is("VNaN", a.t);
	if (a.k === "undef") return T.TRUE;
	return T.FALSE;
}
export function truthy(v: SV): Term {
	switch (v.k) {
		case "undef": case "null": return T.FALSE;
		case "bool": return v.t;
		case "int": return T.not(T.eq(v.t, T.int(0)));
		case "real": return T.not(T.eq(v.t, T.realLit("0.0")));
		case "str": return T.not(T.eq(v.t, T.strLit("")));
		case "ref": case "fn": return T.TRUE;
		case "val": {
			const b = v.t;
			if (b.op === "ite") return T.ite(b.args[0], truthy(svVal(b.args[1])), truthy(svVal(b.args[2])));
			return T.or(T.is("R", b), T.is("F", b), T.and(T.is("B", b), T.sel("bv", b)),
				T.and(T.is("NI", b), T.not(T.eq(T.sel("ni", b), T.int(0)))), T.is("NR", b), T.is("VPInf", b), T.is("VNInf", b),
				T.and(T.is("S", b), T.not(T.eq(T.sel("sv", b), T.strLit("")))));
		}
	}
}
export function nullish(v: SV): Term {
	if (v.k === "undef" || v.k === "null") return T.TRUE;
	if (v.k !== "val") return T.FALSE;
	return T.or(T.is("Undef", v.t), T.is("Null", v.t));
}
export function strictEq(a: SV, b: SV): Term {
	if (a.k === b.k && (a.k === "bool" || a.k === "int" || a.k === "real" || a.k === "str" || a.k === "ref")) return T.eq(a.t, (b as any).t);
	if ((a.k === "int" && b.k === "real") || (a.k === "real" && b.k === "int")) return T.eq(T.toReal(a.t), T.toReal(b.t));
	if (a.k === "real" || b.k === "real") {
		const x = view(a), y = view(b);
		return T.and(x.fin, y.fin, T.eq(x.r, y.r));
	}
	const ba = box(a), bb = box(b);
	const e = T.eq(ba, bb);
	const n = T.and(e, T.not(T.is("VNaN", ba)));
	if (e === T.TRUE || !mayNR(ba) && !mayNR(bb) || !mayN(ba) || !mayN(bb)) return n;
	// a finite number may be stored as NI or as NR
	const x = view(a), y = view(b);
	return T.or(n, T.and(x.fin, y.fin, T.eq(x.r, y.r)));
}
function mayNR(t: Term): boolean {
	if (t.op === "ite") return mayNR(t.args[1]) || mayNR(t.args[2]);
	return !T.isCtor(t) || t.op === "NR";
}
function mayN(t: Term): boolean {
	if (t.op === "ite") return mayN(t.args[1]) || mayN(t.args[2]);
	return !T.isCtor(t) || t.op === "NR" || t.op === "NI";
}
export function mergeSV(c: Term, a: SV, b: SV): SV {
	if (c === T.TRUE) return a;
	if (c === T.FALSE) return b;
	if (a === b) return a;
	if (a.k === b.k) {
		switch (a.k) {
			case "undef": case "null": return a;
			case "bool": case "int": case "real": case "str": return { k: a.k, t: T.ite(c, a.t, (b as any).t) } as SV;
			case "ref": return { k: "ref", t: T.ite(c, a.t, (b as any).t), raw: a.raw || (b as any).raw };
			case "fn": if (a.f.id === (b as any).f.id) return a; break;
		}
	}
	if ((a.k === "int" && b.k === "real") || (a.k === "real" && b.k === "int")) return { k: "real", t: T.ite(c, T.toReal(a.t), T.toReal(b.t)) };
	return svVal(T.ite(c, box(a), box(b)), (a as any).raw || (b as any).raw);
}

// ---------- state ----------
export class Cell { name: string; ty?: ts.Type; constructor(name: string, ty?: ts.Type) { this.name = name; this.ty = ty; } }
export class Scope {
	vars = new Map<ts.Symbol, Cell>();
	parent?: Scope;
	thisV?: SV;
	fnDecl?: ts.Node;
	constructor(parent?: Scope) { this.parent = parent; this.thisV = parent?.thisV; }
	lookup(s: ts.Symbol): Cell | undefined {
		for (let x: Scope | undefined = this; x; x = x.parent) { const c = x.vars.get(s); if (c) return c; }
		return undefined;
	}
}
export type Epoch = { kind: "base"; id: number; A: Term } | { kind: "merge"; c: Term; a: Heap; b: Heap };
export function heapSort(f: string): Sort {
	switch (f) {
		case "#len": case "#msize": return "(Array Int Int)";
		case "#el": return "(Array Int (Array Int Val))";
		case "#mhas": return "(Array Int (Array Val Bool))";
		case "#mget": return "(Array Int (Array Val Val))";
		case "#rec": return "(Array Int (Array Str Val))";
	}
	return "(Array Int Val)";
}
export class Heap {
	m: Map<string, Term>;
	epoch: Epoch;
	constructor(epoch: Epoch, m?: Map<string, Term>) { this.epoch = epoch; this.m = m ?? new Map(); }
	clone() { return new Heap(this.epoch, new Map(this.m)); }
}
export class State {
	pc: Term[] = [];
	cells = new Map<Cell, SV>();
	heap: Heap;
	dead = false;
	writes: { f: string; ref: Term }[] | null = null;
	constructor(heap: Heap) { this.heap = heap; }
	fork(c?: Term): State {
		const s = new State(this.heap.clone());
		s.pc = [...this.pc];
		s.cells = new Map(this.cells);
		s.dead = this.dead;
		s.writes = this.writes;
		if (c) s.assume(c);
		return s;
	}
	assume(c: Term) {
		if (c === T.TRUE) return;
		if (c === T.FALSE) { this.dead = true; this.pc.push(T.FALSE); return; }
		if (c.op === "and") { for (const x of c.args) this.assume(x); return; }
		const n = T.not(c);
		for (const p of this.pc) { if (p === c) return; if (p === n) { this.dead = true; return; } }
		this.pc.push(c);
	}
	set(o: State) { this.pc = o.pc; this.cells = o.cells; this.heap = o.heap; this.dead = o.dead; }
}
export interface Out { st: State; v: SV; label?: string; node?: ts.Node }
export class Exits {
	returns: Out[] = [];
	throws: Out[] = [];
	breaks: Out[] = [];
	continues: Out[] = [];
}
export const pcT = (st: State) => T.and(...st.pc);
/** constant integer base >= 2 to any power: an uninterpreted positive real with its basic bounds */
export function npow(base: bigint, b: SV, fact: (t: Term) => void): SV {
	const y = view(b);
	const p = T.app(`pow_${base}`, [y.r], "Real");
	fact(T.and(T.lt(T.realLit("0.0"), p),
		T.implies(T.eq(y.r, T.realLit("0.0")), T.eq(p, T.realLit("1.0"))),
		T.implies(T.le(T.realLit("0.0"), y.r), T.le(T.realLit("1.0"), p)),
		T.implies(T.le(T.realLit("1.0"), y.r), T.le(T.real(Number(base)), p)),
		T.implies(T.lt(y.r, T.realLit("0.0")), T.lt(p, T.realLit("1.0")))));
	if (y.allFin) return { k: "real", t: p };
	const bb = box(b);
	return svVal(T.ite(y.fin, mkNumR(p), T.ite(T.is("VNaN", bb), T.NAN, T.ite(T.is("VPInf", bb), T.PINF, T.ctor("NI", T.int(0))))));
}
