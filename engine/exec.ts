// The executor: evaluates expressions/statements of the real source over symbolic states.
import ts from "./tsapi.ts";
import * as T from "./term.ts";
import type { Term, Sort } from "./term.ts";
import {
	Unsupported, where, UNDEF, NUL, svBool, svInt, svStr, svStrLit, svRef, svVal, mkFn, fnTable, box, isNumT, finT,
	nlt, nle, nadd, nsub, nmul, ndiv, nneg, nfloor, nceil, ntrunc, nminmax, isNaNT, truthy, nullish, strictEq, mergeSV, view,
	Cell, Scope, Heap, State, Exits, pcT, heapSort, simplifyVal, mkNumR, npow,
} from "./sym.ts";
import type { SV, FnVal, Out, Epoch } from "./sym.ts";
import { callBuiltinMethod, callGlobal, globalValue } from "./builtins.ts";

export const TAG = { ARR: 1, MAP: 2, SET: 3, PLAIN: 4, ERR: 5, REGEX: 6, CLASS: 100 };
export interface ExtModel {
	kind: "pure" | "havoc" | "skip" | "ident" | "const";
	throws?: boolean; // may throw (pure: predicate of the arguments)
	effect?: string; // ghost event name
	args?: number; // only the first n args matter
	model?: string; // name of spec function in contract file to use instead
	modifies?: boolean; // may change the heap (havoc everything that escaped)
	type?: string;
	as?: string; // same function as that one
	heap?: boolean; // depends on heap contents
	fields?: boolean | string[]; // depends on the (listed) field values of its record arguments, not on their identity
	static?: boolean; // the same function whoever holds it
}
export interface LoopInv { fn: ts.ArrowFunction | ts.FunctionExpression; scope: Scope; name: string }
export interface Obligation {
	name: string; kind: string; goal: Term; pc: Term[]; facts: Term[]; node?: string; fn: string; clause?: string;
}
interface BoundScope { vars: { name: string; sort: Sort }[]; terms: Term[]; guard: Term; facts: Term[]; pcLen?: number }

/** split a goal into independently provable parts */
function conjuncts(goal: Term, pc: Term[]): { goal: Term; pc: Term[] }[] {
	const out: { goal: Term; pc: Term[] }[] = [];
	const go = (g: Term, p: Term[], d: number) => {
		if (out.length < 40 && d < 40) {
			if (g.op === "and") { for (const a of g.args) go(a, p, d + 1); return; }
			if (g.op === "ite" && (g.args[1].op === "and" || g.args[2].op === "and")) { go(g.args[1], [...p, g.args[0]], d + 1); go(g.args[2], [...p, T.not(g.args[0])], d + 1); return; }
			if (g.op === "or") {
				const k = g.args.findIndex((a) => a.op === "and");
				if (k >= 0 && g.args.length <= 4) { for (const a of g.args[k].args) go(T.or(...g.args.filter((_, i) => i !== k), a), p, d + 1); return; }
			}
		}
		if (g !== T.TRUE) out.push({ goal: g, pc: p });
	};
	go(goal, pc, 0);
	return out.length ? out : [{ goal: T.TRUE, pc }];
}
export class Engine {
	program: ts.Program;
	checker: ts.TypeChecker;
	facts: Term[] = [];
	baseFacts: Term[] = [];
	factSet = new Set<number>();
	boundStack: BoundScope[] = [];
	declare A: { base: Term; n: number };
	baseEpoch = 0;
	obligations: Obligation[] = [];
	ext = new Map<string, ExtModel>();
	modular = new Map<string, any>();
	invs: LoopInv[] = [];
	depth = 0;
	maxDepth = 40;
	fnStack: ts.Node[] = [];
	inlined = new Set<string>();
	assumptions = new Set<string>();
	moduleCells = new Map<ts.Node, SV>();
	constObjs = new Map<string, { fields: Map<string, Term>; len?: Term; el?: Term[]; set?: Term[]; map?: [Term, Term][] }>();
	nextConst = 1;
	inModuleInit = 0;
	specMode = 0;
	curFn = "";
	strMode: T.StrMode = "U";
	declare loopCheck?: (name: string, goal: Term, pc: Term[]) => boolean;
	unrollLimit = 64;
	ghost = new Set<string>();
	recSpecs = new Map<ts.Node, any>();
	refine = new Map<string, string>(); // field refinement: name -> "int"|"nat"|"fin"
	quantInvs = true;
	declare origin0: Heap;
	frozenFields?: Set<string>;
	vcName = "";
	fieldsSeen = new Set<string>();
	/** partial sums in use (countTo, sumTo, counting loops) */
	sums = new Map<string, { term: (i: Term) => Term; count: boolean }>();
	counting = false;

	constructor(program: ts.Program) {
		this.program = program;
		this.checker = program.getTypeChecker();
	}
	reset() {
		T.resetTerms(); T.resetMemo();
		this.facts = []; this.baseFacts = []; this.factSet = new Set(); this.boundStack = []; this.obligations = []; this.invs = [];
		this.sums = new Map(); this.moduleCells = new Map(); this.constObjs = new Map(); this.nextConst = 1; this.depth = 0; this.fnStack = [];
		this.specMode = 0; this.inModuleInit = 0; this.typeMemo = new Map(); this.baseSeen = new Set(); this.baseEpoch = 0;
		this.A = { base: T.konst("A!0", "Int"), n: 0 };
		this.addFact(T.le(T.int(1), this.A.base));
		this.baseLower = new Map();
	}
	baseLower = new Map<string, { base: Term; n: number }>();
	loopNotes: any[] = [];
	declare prover?: (facts: Term[], goal: Term, mode: T.StrMode) => boolean;
	snapshot(all = true) { return { n: this.facts.length, o: all ? this.obligations.length : -1, A: this.A, bs: this.boundStack.map((b) => b.facts.length) }; }
	restore(s: { n: number; o: number; A: { base: Term; n: number }; bs: number[] }) {
		for (let i = s.n; i < this.facts.length; i++) this.factSet.delete(this.facts[i].id);
		this.facts.length = s.n;
		if (s.o >= 0) this.obligations.length = s.o;
		s.bs.forEach((n, i) => { if (this.boundStack[i]) this.boundStack[i].facts.length = n; });
	}
	/** close a goal inside quantified scopes: bound variables become fresh constants */
	private close(goal: Term, pc: Term[]): { goal: Term; pc: Term[] } {
		if (this.boundStack.length === 0) return { goal, pc };
		const m = new Map<string, Term>();
		const extra: Term[] = [];
		for (const b of this.boundStack) { for (const v of b.vars) m.set(v.name, T.konst(T.freshName("sk"), v.sort)); extra.push(b.guard, ...b.facts); }
		const s = (t: Term) => T.subst(t, m);
		return { goal: s(goal), pc: [...pc, ...extra].map(s) };
	}
	prove(name: string, goal: Term, pc: Term[]): boolean {
		if (goal === T.TRUE) return true;
		const c = this.close(goal, pc);
		if (!this.prover) return false;
		return this.prover([...this.baseFacts, ...this.facts, ...c.pc], c.goal, this.strMode);
	}
	oblige(name: string, kind: string, goal: Term, pc: Term[], clause = "") {
		const c = this.close(goal, pc);
		const facts = this.facts.slice();
		const goals = conjuncts(c.goal, c.pc);
		goals.forEach((g, i) => this.obligations.push({ name: goals.length > 1 ? `${name} part ${i + 1}/${goals.length}` : name, kind, goal: g.goal, pc: g.pc, facts, fn: this.curFn, clause }));
	}
	evalSpec(inv: LoopInv, _pat: ts.ObjectBindingPattern, binds: { el: ts.BindingElement; v: SV }[], st: State): Term | undefined {
		const s = st.fork();
		s.writes = null;
		const base = s.pc.length;
		const sc = new Scope(inv.scope);
		const ex = new Exits();
		this.specMode++;
		try {
			for (const { el, v } of binds) {
				if (v === undefined) return undefined;
				this.bindPattern(el.name, v.k === "val" && !v.raw ? this.unbox(v, this.typeOf(el.name)) : v, s, sc, ex);
			}
			const body = inv.fn.body;
			let v: SV;
			if (ts.isBlock(body)) throw new Unsupported("invariant with block body", body);
			v = this.eval(body, s, sc, ex);
			if (s.dead) return T.FALSE;
			return T.and(...s.pc.slice(base), truthy(v));
		} finally { this.specMode--; }
	}
	/** t differs from t0 only at objects allocated by the verified call */
	onlyFresh(t: Term, t0: Term): boolean {
		if (t === t0) return true;
		if (t.op === "store") {
			const r = t.args[1];
			const fresh = (x: Term): boolean => {
				if (x.op === "app" && x.name!.startsWith("new!")) return true;
				if (x.op === "ite") return fresh(x.args[1]) && fresh(x.args[2]);
				const [b] = T.baseOff(x);
				return !!b && b.op === "const" && b.name!.startsWith("A!");
			};
			return fresh(r) && this.onlyFresh(t.args[0], t0);
		}
		if (t.op === "ite") return this.onlyFresh(t.args[1], t0) && this.onlyFresh(t.args[2], t0);
		return false;
	}
	// ---------- facts & bound scopes
	addFact(f: Term) {
		if (f === T.TRUE) return;
		for (let i = this.boundStack.length - 1; i >= 0; i--) {
			const b = this.boundStack[i];
			// a fact that is false holds only because the range of the bound variables is empty
			if (f === T.FALSE || b.vars.some((v) => f.fv.has(v.name))) { b.facts.push(f); return; }
		}
		if (this.factSet.has(f.id)) return;
		this.factSet.add(f.id);
		this.facts.push(f);
	}
	boundTerms(): Term[] { return this.boundStack.flatMap((b) => b.terms); }
	fresh(name: string, sort: Sort): Term { return T.app(T.freshName(name), this.boundTerms(), sort); }
	/** run `f` with fresh bound variables; facts mentioning them get quantified under guard */
	withBound<R>(sorts: Sort[], guard: (vs: Term[]) => Term, f: (vs: Term[]) => R): R {
		const vars = sorts.map((s) => ({ name: T.freshName("q"), sort: s }));
		const terms = vars.map((v) => T.bound(v.name, v.sort));
		const scope: BoundScope = { vars, terms, guard: T.TRUE, facts: [] };
		this.boundStack.push(scope);
		scope.guard = guard(terms);
		let r: R;
		try { r = f(terms); } finally { this.boundStack.pop(); }
		if (scope.facts.length) {
			const seen = new Set<number>();
			for (const x of scope.facts) {
				if (seen.has(x.id)) continue;
				seen.add(x.id);
				this.addFact(this.quant(vars, T.implies(scope.guard, x)));
			}
		}
		return r;
	}
	quant(vars: { name: string; sort: Sort }[], body: Term): Term {
		return T.forall(vars, body);
	}
	// ---------- allocation and heap
	get Anow(): Term { return T.add(this.A.base, T.int(this.A.n)); }
	newBase() {
		const b = T.konst(T.freshName("A!"), "Int");
		this.baseFacts.push(T.le(this.Anow, b));
		this.baseLower.set(b.name!, { base: this.A.base, n: this.A.n });
		this.A = { base: b, n: 0 };
	}
	alloc(tag: number): Term {
		const bt = this.boundTerms();
		let r: Term;
		if (bt.length) {
			const nm = T.freshName("new");
			r = T.app(nm, bt, "Int");
			const lo = this.Anow;
			this.newBase();
			this.addFact(T.and(T.le(lo, r), T.lt(r, this.A.base)));
			this.addFact(T.eq(T.app("allocsite", [r], "Int"), T.int(nextSite++)));
			bt.forEach((v, i) => this.addFact(T.eq(T.app(`${nm}_inv${i}`, [r], v.sort), v)));
		} else {
			r = this.Anow;
			this.A = { base: this.A.base, n: this.A.n + 1 };
		}
		this.addFact(T.eq(this.tag(r), T.int(tag)));
		return r;
	}
	tag(ref: Term): Term {
		if (ref.op === "int") { const c = this.constObjs.get(ref.name!); if (c) return T.int((c as any).tag); }
		if (ref.op === "ite") { const a = this.tag(ref.args[1]), b = this.tag(ref.args[2]); return T.ite(ref.args[0], a, b); }
		return T.app("tag", [ref], "Int");
	}
	baseSeen = new Set<string>();
	heapGet(h: Heap, f: string): Term {
		this.fieldsSeen.add(f);
		const x = h.m.get(f);
		if (x) return x;
		const e = h.epoch;
		let t: Term;
		if (e.kind === "base") {
			const name = `H${e.id}_${f}`;
			t = T.konst(name, heapSort(f));
			if (!this.baseSeen.has(name)) {
				this.baseSeen.add(name);
				this.baseAxioms(t, f, e.A);
			}
		} else t = T.ite(e.c, this.heapGet(e.a, f), this.heapGet(e.b, f));
		h.m.set(f, t);
		return t;
	}
	baseAxioms(t: Term, f: string, A: Term) {
		const r = { name: `br_${f}`, sort: "Int" as Sort };
		const rb = T.bound(r.name, "Int");
		const s = T.raw("select", [t, rb], T.elemSort(t.sort));
		const push = (x: Term) => { this.baseFacts.push(x); };
		const ok = (v: Term) => T.implies(T.is("R", v), T.and(T.lt(T.sel("rv", v), A), T.not(T.eq(T.sel("rv", v), T.int(0)))));
		switch (f) {
			case "#len": case "#msize":
				push(T.forall([r], T.le(T.int(0), s), [[s]]));
				return;
			case "#el": {
				const i = { name: "bi", sort: "Int" as Sort };
				const v = T.raw("select", [s, T.bound("bi", "Int")], "Val");
				push(T.forall([r, i], ok(v), [[v]]));
				return;
			}
			case "#mget": case "#rec": {
				const ks = f === "#mget" ? "Val" : "Str";
				const i = { name: "bk", sort: ks as Sort };
				const v = T.raw("select", [s, T.bound("bk", ks)], "Val");
				push(T.forall([r, i], ok(v), [[v]]));
				return;
			}
			case "#mhas": return;
		}
		push(T.forall([r], ok(s), [[s]]));
	}
	hread(h: Heap, f: string, ref: Term): Term {
		if (ref.op === "int") {
			const c = this.constObjs.get(ref.name!);
			if (c) return this.constRead(c, f);
		}
		if (ref.op === "ite" && hasConstLeaf(ref)) return T.ite(ref.args[0], this.hread(h, f, ref.args[1]), this.hread(h, f, ref.args[2]));
		return this.sel(this.heapGet(h, f), ref);
	}
	/** select with allocation-order knowledge */
	sel(arr: Term, ref: Term): Term {
		let a = arr;
		while (a.op === "store") {
			if (a.args[1] === ref) return a.args[2];
			if (T.distinctSyntactic(a.args[1], ref) || this.apart(a.args[1], ref)) { a = a.args[0]; continue; }
			break;
		}
		if (a.op === "ite") return T.ite(a.args[0], this.sel(a.args[1], ref), this.sel(a.args[2], ref));
		return T.select(a, ref);
	}
	oldRefs = new Map<number, { base: Term; n: number }>();
	/** a is freshly allocated after b was known to exist (or vice versa) */
	apart(a: Term, b: Term): boolean {
		return this.allocAfter(a, b) || this.allocAfter(b, a);
	}
	allocAfter(a: Term, b: Term): boolean {
		// a = base+o, b has a known upper bound (exclusive) ub = base'+n
		const [ba, oa] = T.baseOff(a);
		if (!ba || ba.op !== "const" || !ba.name!.startsWith("A!")) return false;
		const ub = this.upper(b);
		if (!ub) return false;
		return this.leBase(ub.base, BigInt(ub.n), ba, oa);
	}
	leBase(b1: Term, n1: bigint, b2: Term, n2: bigint): boolean {
		if (b1 === b2) return n1 <= n2;
		if (n2 < 0n) return false;
		const lo = this.baseLower.get(b2.name!);
		if (!lo) return false;
		return this.leBase(b1, n1, lo.base, BigInt(lo.n));
	}
	upper(b: Term): { base: Term; n: number } | undefined {
		const known = this.oldRefs.get(b.id);
		if (known) return known;
		const [bb, ob] = T.baseOff(b);
		if (bb && bb.op === "const" && bb.name!.startsWith("A!")) return { base: bb, n: Number(ob) + 1 };
		if (b.op === "rv") return this.upperVal(b.args[0]);
		if (b.op === "ite") {
			const x = this.upper(b.args[1]), y = this.upper(b.args[2]);
			if (x && y) return this.leBase(x.base, BigInt(x.n), y.base, BigInt(y.n)) ? y : this.leBase(y.base, BigInt(y.n), x.base, BigInt(x.n)) ? x : undefined;
		}
		return undefined;
	}
	upperVal(v: Term): { base: Term; n: number } | undefined {
		// value read out of an initial heap array
		if (v.op === "select") {
			const a = v.args[0];
			const root = a.op === "select" ? a.args[0] : a;
			if (root.op === "const" && /^H0_/.test(root.name!)) return { base: T.konst("A!0", "Int"), n: 0 };
		}
		if (v.op === "ite") {
			const x = this.upperVal(v.args[1]), y = this.upperVal(v.args[2]);
			if (x && y && x.base === y.base) return x.n > y.n ? x : y;
		}
		return undefined;
	}
	constRead(c: any, f: string): Term {
		if (f === "#len") return c.len ?? T.int(0);
		if (f === "#msize") return T.int(c.set ? c.set.length : c.map ? c.map.length : 0);
		if (f === "#el") {
			let a = T.constArr("(Array Int Val)", T.UNDEF);
			(c.el ?? []).forEach((v: Term, i: number) => { a = T.store(a, T.int(i), v); });
			return a;
		}
		if (f === "#mhas") {
			let a = T.constArr("(Array Val Bool)", T.FALSE);
			for (const v of c.set ?? []) a = T.store(a, v, T.TRUE);
			for (const [k] of c.map ?? []) a = T.store(a, k, T.TRUE);
			return a;
		}
		if (f === "#mget") {
			let a = T.constArr("(Array Val Val)", T.UNDEF);
			for (const [k, v] of c.map ?? []) a = T.store(a, k, v);
			return a;
		}
		if (f === "#rec") {
			let a = T.constArr("(Array Str Val)", T.UNDEF);
			for (const [k, v] of c.fields) a = T.store(a, T.strLit(k), v);
			return a;
		}
		return c.fields.get(f) ?? T.UNDEF;
	}
	hwrite(st: State, f: string, ref: Term, v: Term, node?: ts.Node) {
		if (this.inModuleInit) {
			const c: any = this.constObjs.get(ref.name!);
			if (c) { c.fields.set(f, v); return; }
		}
		if (ref.op === "int" && ref.name!.startsWith("-")) throw new Unsupported("write to a module constant", node);
		st.writes?.push({ f, ref });
		st.heap.m.set(f, T.store(this.heapGet(st.heap, f), ref, v));
	}
	havocHeap(st: State) {
		// everything may change except module constants
		this.newBase();
		const id = ++this.baseEpoch;
		st.writes?.push({ f: "*", ref: T.int(0) });
		st.heap = new Heap({ kind: "base", id, A: this.A.base });
	}
	// ---------- merging
	mergeHeap(c: Term, a: Heap, b: Heap): Heap {
		if (a === b) return a;
		const same = a.epoch === b.epoch;
		const h = new Heap(same ? a.epoch : { kind: "merge", c, a: a.clone(), b: b.clone() });
		const keys = new Set([...a.m.keys(), ...b.m.keys()]);
		for (const k of keys) {
			const x = this.heapGet(a, k), y = this.heapGet(b, k);
			h.m.set(k, x === y ? x : T.ite(c, x, y));
		}
		return h;
	}
	/** merge mutually exclusive states (with optional values) */
	merge(outs: Out[]): Out | undefined {
		outs = outs.filter((o) => !o.st.dead);
		if (outs.length === 0) return undefined;
		let acc = outs[0];
		for (let i = 1; i < outs.length; i++) acc = this.merge2(acc, outs[i]);
		return acc;
	}
	merge2(a: Out, b: Out): Out {
		const p: Term[] = [];
		let i = 0;
		while (i < a.st.pc.length && i < b.st.pc.length && a.st.pc[i] === b.st.pc[i]) { p.push(a.st.pc[i]); i++; }
		const ra = a.st.pc.slice(i), rb = b.st.pc.slice(i);
		// choose a small distinguishing condition
		let c: Term | undefined;
		const notB = new Set(rb.map((x) => T.not(x).id));
		const hit = ra.find((x) => notB.has(x.id));
		if (hit) c = hit;
		else c = T.and(...ra);
		const st = new State(this.mergeHeap(c, a.st.heap, b.st.heap));
		st.writes = a.st.writes;
		// c ∨ ¬c cancels
		const ra2 = hit ? ra.filter((x) => x !== hit) : ra, rb2 = hit ? rb.filter((x) => x !== T.not(hit)) : rb;
		st.pc = p;
		if (hit) {
			const x = T.ite(hit, T.and(...ra2), T.and(...rb2));
			if (x !== T.TRUE) st.pc.push(x);
		} else {
			const x = T.or(T.and(...ra), T.and(...rb));
			if (x !== T.TRUE) st.pc.push(x);
		}
		for (const [k, va] of a.st.cells) {
			const vb = b.st.cells.get(k);
			st.cells.set(k, vb === undefined ? va : mergeSV(c, va, vb));
		}
		for (const [k, vb] of b.st.cells) if (!a.st.cells.has(k)) st.cells.set(k, vb);
		return { st, v: mergeSV(c, a.v, b.v), node: a.node };
	}
	branch(st: State, c: Term, f: (s: State) => SV, g: (s: State) => SV): SV {
		if (c === T.TRUE) return f(st);
		if (c === T.FALSE) return g(st);
		const s1 = st.fork(c), s2 = st.fork(T.not(c));
		const v1 = s1.dead ? UNDEF : f(s1);
		const v2 = s2.dead ? UNDEF : g(s2);
		const m = this.merge([{ st: s1, v: v1 }, { st: s2, v: v2 }]);
		if (!m) { st.dead = true; return UNDEF; }
		st.set(m.st);
		return m.v;
	}
	// ---------- types
	typeMemo = new Map<string, Term>();
	flags(t: ts.Type, f: number) { return (t.flags & f) !== 0; }
	typeFact(v: Term, ty: ts.Type, d = 0): Term {
		const TF = ts.TypeFlags;
		const fl = ty.flags;
		if (fl & (TF.Any | TF.Unknown | TF.TypeParameter | TF.IndexedAccess | TF.Conditional | TF.Substitution | TF.Index)) {
			if (fl & TF.TypeParameter) { const c = this.checker.getBaseConstraintOfType(ty); if (c && c !== ty && !(c.flags & TF.Unknown)) return this.typeFact(v, c, d + 1); }
			return T.TRUE;
		}
		if (fl & TF.StringLiteral) return T.eq(v, T.ctor("S", T.strLit((ty as ts.StringLiteralType).value)));
		if (fl & TF.NumberLiteral) return T.eq(v, box(numLit((ty as ts.NumberLiteralType).value)));
		if (fl & TF.BooleanLiteral) return T.eq(v, T.ctor("B", T.bool((ty as any).intrinsicName === "true")));
		if (fl & (TF.String | TF.TemplateLiteral | TF.StringMapping)) return T.is("S", v);
		if (fl & TF.Number) return isNumT(v);
		if (fl & TF.Boolean) return T.is("B", v);
		if (fl & (TF.Undefined | TF.Void)) return T.is("Undef", v);
		if (fl & TF.Null) return T.is("Null", v);
		if (fl & TF.Never) return T.TRUE;
		if (ty.isUnion()) {
			const parts = ty.types;
			if (parts.length > 60) return T.TRUE;
			const bools = parts.filter((p) => p.flags & TF.BooleanLiteral);
			const rest = bools.length === 2 ? parts.filter((p) => !(p.flags & TF.BooleanLiteral)) : parts;
			return T.or(...(bools.length === 2 ? [T.is("B", v)] : []), ...rest.map((p) => this.typeFact(v, p, d + 1)));
		}
		if (ty.isIntersection()) return T.and(...ty.types.map((p) => this.typeFact(v, p, d + 1)));
		if (fl & TF.NonPrimitive) return T.or(T.is("R", v), T.is("F", v));
		if (fl & TF.Object) {
			if (ty.getCallSignatures().length > 0) return T.is("F", v);
			const nm = ty.symbol?.name;
			const isArr = this.checker.isArrayType(ty) || this.checker.isTupleType(ty) || nm === "ReadonlyArray";
			const tag = this.tag(T.sel("rv", v));
			if (isArr) return T.and(T.is("R", v), T.eq(tag, T.int(TAG.ARR)));
			if (nm === "Map" || nm === "ReadonlyMap") return T.and(T.is("R", v), T.eq(tag, T.int(TAG.MAP)));
			if (nm === "Set" || nm === "ReadonlySet") return T.and(T.is("R", v), T.eq(tag, T.int(TAG.SET)));
			if (ty.getProperties().length > 0 || ty.getStringIndexType()) return T.and(T.is("R", v), T.lt(T.int(3), tag));
			return T.not(T.or(T.is("Undef", v), T.is("Null", v)));
		}
		return T.TRUE;
	}
	isKind(ty: ts.Type, k: "str" | "num" | "bool" | "ref"): boolean {
		const TF = ts.TypeFlags;
		if (ty.isUnion()) return ty.types.length > 0 && ty.types.every((p) => this.isKind(p, k));
		if (ty.isIntersection()) return ty.types.some((p) => this.isKind(p, k));
		const fl = ty.flags;
		if (k === "str") return !!(fl & (TF.String | TF.StringLiteral | TF.TemplateLiteral));
		if (k === "num") return !!(fl & (TF.Number | TF.NumberLiteral));
		if (k === "bool") return !!(fl & (TF.Boolean | TF.BooleanLiteral));
		if (fl & TF.TypeParameter) { const c = this.checker.getBaseConstraintOfType(ty); return !!c && c !== ty && this.isKind(c, k); }
		if (fl & TF.Object) return ty.getCallSignatures().length === 0 && ty.getProperties().length > 0;
		return false;
	}
	/** unbox by a trusted static type */
	unbox(v: SV, ty: ts.Type | undefined): SV {
		if (v.k !== "val" || v.raw || !ty) return v;
		if (this.isKind(ty, "str")) return svStr(T.sel("sv", v.t));
		if (this.isKind(ty, "bool")) return svBool(T.sel("bv", v.t));
		if (this.isKind(ty, "ref")) return svRef(T.sel("rv", v.t));
		const rf = (v as any).rf as string | undefined;
		if (rf && this.isKind(ty, "num")) return rf === "int" ? svInt(T.sel("ni", v.t)) : { k: "real", t: T.app("fnum", [v.t], "Real") };
		return v;
	}
	/** value read from trusted storage of declared type ty */
	typed(t: Term, ty: ts.Type | undefined, st: State, guard: Term = T.TRUE, refine?: string): SV {
		const v = svVal(t);
		if (v.k !== "val") return v;
		if (!ty) return { ...v, raw: true };
		if (this.isUntrustedType(ty)) return { k: "val", t, raw: true };
		let f = this.typeFact(t, ty);
		let ref = refine ? this.refine.get(refine) : undefined;
		if (ref) {
			const opt = T.or(T.is("Undef", t), T.is("Null", t));
			const core = ref === "int" ? T.is("NI", t) : ref === "nat" ? T.and(T.is("NI", t), T.le(T.int(0), T.sel("ni", t)))
				: ref === "fin" ? finT(t) : ref === "nonneg" ? T.or(T.and(T.is("NI", t), T.le(T.int(0), T.sel("ni", t))), T.and(T.is("NR", t), T.le(T.realLit("0.0"), T.sel("nr", t)))) : T.TRUE;
			f = T.and(f, T.or(opt, core));
		}
		if (f !== T.TRUE) this.addFact(T.implies(T.and(guard, pcT(st)), f));
		if ((ref === "int" || ref === "nat") && this.isKind(ty, "num")) return svInt(T.sel("ni", t));
		if (ref === "fin" && t.op !== "ite") {
			this.addFact(T.eq(T.app("fnum", [t], "Real"), T.ite(T.is("NI", t), T.toReal(T.sel("ni", t)), T.sel("nr", t))));
			if (this.isKind(ty, "num")) return { k: "real", t: T.app("fnum", [t], "Real") };
		}
		const rf = ref === "int" || ref === "nat" ? "int" : ref === "fin" && t.op !== "ite" ? "fin" : undefined;
		const r = this.unbox(v, ty);
		if (r.k === "val") return { ...r, ty, ...(rf ? { rf } : {}) } as SV;
		return r;
	}
	isUntrustedType(ty: ts.Type): boolean { return (ty.flags & (ts.TypeFlags.Any | ts.TypeFlags.Unknown)) !== 0; }
	typeOf(n: ts.Node): ts.Type { return this.checker.getTypeAtLocation(n); }
	// ---------- parameters
	symbolicParam(name: string, ty: ts.Type, st: State): SV {
		const t = T.konst(`arg_${name}`, "Val");
		this.addFact(T.implies(T.is("R", t), T.and(T.lt(T.sel("rv", t), T.konst("A!0", "Int")), T.not(T.eq(T.sel("rv", t), T.int(0))))));
		this.oldRefs.set(T.sel("rv", t).id, { base: T.konst("A!0", "Int"), n: 0 });
		return this.typed(t, ty, st, T.TRUE, name);
	}
	// ---------- expressions
	eval(n: ts.Expression, st: State, sc: Scope, ex: Exits): SV {
		if (st.dead) return UNDEF;
		const SK = ts.SyntaxKind;
		switch (n.kind) {
			case SK.ParenthesizedExpression: return this.eval((n as ts.ParenthesizedExpression).expression, st, sc, ex);
			case SK.NumericLiteral: return numLit(Number((n as ts.NumericLiteral).text.replace(/_/g, "")));
			case SK.StringLiteral: case SK.NoSubstitutionTemplateLiteral: return svStrLit((n as ts.StringLiteral).text);
			case SK.TrueKeyword: return svBool(T.TRUE);
			case SK.FalseKeyword: return svBool(T.FALSE);
			case SK.NullKeyword: return NUL;
			case SK.ThisKeyword: if (!sc.thisV) throw new Unsupported("this", n); return sc.thisV;
			case SK.Identifier: return this.ident(n as ts.Identifier, st, sc, ex);
			case SK.TemplateExpression: {
				const te = n as ts.TemplateExpression;
				const parts: SV[] = [svStrLit(te.head.text)];
				for (const s of te.templateSpans) { parts.push(this.toStr(this.eval(s.expression, st, sc, ex), st)); parts.push(svStrLit(s.literal.text)); }
				return this.concat(parts);
			}
			case SK.SatisfiesExpression: return this.eval((n as ts.SatisfiesExpression).expression, st, sc, ex);
			case SK.AsExpression: case SK.TypeAssertionExpression: {
				const e = (n as ts.AsExpression).expression;
				const v = this.eval(e, st, sc, ex);
				if (ts.isConstTypeReference((n as ts.AsExpression).type)) return v;
				const from = this.typeOf(e), to = this.typeOf(n);
				if (v.k === "val" && !v.raw && !this.checker.isTypeAssignableTo(from, to)) return { ...v, raw: true };
				if (v.k === "ref" && !v.raw && !this.checker.isTypeAssignableTo(from, to)) return { ...v, raw: true };
				return v;
			}
			case SK.NonNullExpression: {
				const v = this.eval((n as ts.NonNullExpression).expression, st, sc, ex);
				return v.k === "val" ? { ...v, raw: true } : v;
			}
			case SK.PropertyAccessExpression: return this.propAccess(n as ts.PropertyAccessExpression, st, sc, ex);
			case SK.ElementAccessExpression: return this.elemAccess(n as ts.ElementAccessExpression, st, sc, ex);
			case SK.CallExpression: return this.call(n as ts.CallExpression, st, sc, ex);
			case SK.NewExpression: return this.newExpr(n as ts.NewExpression, st, sc, ex);
			case SK.ConditionalExpression: {
				const ce = n as ts.ConditionalExpression;
				const c = this.cond(ce.condition, st, sc, ex);
				if (st.dead) return UNDEF;
				return this.branch(st, c, (s) => this.eval(ce.whenTrue, s, sc, ex), (s) => this.eval(ce.whenFalse, s, sc, ex));
			}
			case SK.PrefixUnaryExpression: return this.prefix(n as ts.PrefixUnaryExpression, st, sc, ex);
			case SK.PostfixUnaryExpression: {
				const pe = n as ts.PostfixUnaryExpression;
				const old = this.eval(pe.operand as ts.Expression, st, sc, ex);
				const one = svInt(T.int(1));
				this.assignTo(pe.operand as ts.Expression, pe.operator === SK.PlusPlusToken ? nadd(old, one) : nsub(old, one), st, sc, ex);
				return old;
			}
			case SK.BinaryExpression: return this.binary(n as ts.BinaryExpression, st, sc, ex);
			case SK.ObjectLiteralExpression: return this.objLit(n as ts.ObjectLiteralExpression, st, sc, ex);
			case SK.ArrayLiteralExpression: return this.arrLit(n as ts.ArrayLiteralExpression, st, sc, ex);
			case SK.ArrowFunction: case SK.FunctionExpression:
				return mkFn({ decl: n as ts.ArrowFunction, scope: sc, thisV: n.kind === SK.ArrowFunction ? sc.thisV : undefined, name: "closure" });
			case SK.TypeOfExpression: return this.typeofV(this.eval((n as ts.TypeOfExpression).expression, st, sc, ex));
			case SK.VoidExpression: this.eval((n as ts.VoidExpression).expression, st, sc, ex); return UNDEF;
			case SK.AwaitExpression: return this.awaitV(this.eval((n as ts.AwaitExpression).expression, st, sc, ex), st, n);
			case SK.RegularExpressionLiteral: {
				const r = this.alloc(TAG.REGEX);
				(this.regexOf ??= new Map()).set(r.id, n.getText());
				return svRef(r);
			}
			case SK.DeleteExpression: {
				const e = (n as ts.DeleteExpression).expression;
				if (ts.isPropertyAccessExpression(e)) {
					const o = this.eval(e.expression, st, sc, ex);
					const r = this.needRef(o, st, ex, n);
					this.hwrite(st, e.name.text, r, T.UNDEF, n);
					return svBool(T.TRUE);
				}
				throw new Unsupported("delete", n);
			}
			case SK.BigIntLiteral: throw new Unsupported("bigint", n);
		}
		throw new Unsupported(`expression ${SK[n.kind]}`, n);
	}
	regexOf?: Map<number, string>;
	cond(n: ts.Expression, st: State, sc: Scope, ex: Exits): Term { return truthy(this.eval(n, st, sc, ex)); }
	awaitV(v: SV, st: State, n: ts.Node): SV { return v; }
	concat(parts: SV[]): SV {
		if (this.strMode === "S") {
			let ts_ = parts.map((p) => (p as any).t as Term).filter((t) => !(t.op === "strlit" && t.name === ""));
			const out: Term[] = [];
			for (const t of ts_) { const l = out[out.length - 1]; if (l && l.op === "strlit" && t.op === "strlit") out[out.length - 1] = T.strLit(l.name! + t.name!); else out.push(t); }
			if (out.length === 0) return svStrLit("");
			if (out.length === 1) return svStr(out[0]);
			return svStr(T.raw("str.++", out, "Str"));
		}
		const lits = parts.every((p) => p.k === "str" && p.t.op === "strlit");
		if (lits) return svStrLit(parts.map((p) => (p as any).t.name).join(""));
		const used = parts.filter((p) => !(p.k === "str" && p.t.op === "strlit" && p.t.name === ""));
		if (used.length === 1 && used[0].k === "str") return used[0];
		// uninterpreted concatenation: left fold, only non-emptiness is known
		let acc = (used[0] as any).t as Term;
		for (let i = 1; i < used.length; i++) {
			const t = (used[i] as any).t as Term;
			const r = T.app("str_concat", [acc, t], "Str");
			this.addFact(T.implies(T.eq(r, T.strLit("")), T.and(T.eq(acc, T.strLit("")), T.eq(t, T.strLit("")))));
			acc = r;
		}
		return svStr(acc);
	}
	toStr(v: SV, st: State): SV {
		if (v.k === "str") return v;
		if (v.k === "undef") return svStrLit("undefined");
		if (v.k === "null") return svStrLit("null");
		if (v.k === "int" && v.t.op === "int") return svStrLit(v.t.name!);
		if (v.k === "bool") return svStr(T.ite(v.t, T.strLit("true"), T.strLit("false")));
		const b = box(v);
		const u = T.app("to_string", [b], "Str");
		const isS = T.is("S", b);
		return svStr(T.ite(isS, T.sel("sv", b), u));
	}
	typeofV(v: SV): SV {
		switch (v.k) {
			case "undef": return svStrLit("undefined");
			case "null": return svStrLit("object");
			case "bool": return svStrLit("boolean");
			case "int": case "real": return svStrLit("number");
			case "str": return svStrLit("string");
			case "ref": return svStrLit("object");
			case "fn": return svStrLit("function");
		}
		const b = v.t;
		return svStr(T.ite(T.is("S", b), T.strLit("string"), T.ite(isNumT(b), T.strLit("number"), T.ite(T.is("B", b), T.strLit("boolean"),
			T.ite(T.is("Undef", b), T.strLit("undefined"), T.ite(T.is("F", b), T.strLit("function"), T.strLit("object")))))));
	}
	symbolOf(n: ts.Node): ts.Symbol | undefined {
		let s: ts.Symbol | undefined;
		if (n.parent && ts.isShorthandPropertyAssignment(n.parent) && n.parent.name === n) s = this.checker.getShorthandAssignmentValueSymbol(n.parent);
		else s = this.checker.getSymbolAtLocation(n);
		if (s && s.flags & ts.SymbolFlags.Alias) s = this.checker.getAliasedSymbol(s);
		return s;
	}
	ident(n: ts.Identifier, st: State, sc: Scope, ex: Exits): SV {
		if (n.text === "undefined") return UNDEF;
		const s = this.symbolOf(n);
		if (!s) throw new Unsupported("unresolved identifier", n);
		const c = sc.lookup(s);
		if (c) {
			const v = st.cells.get(c);
			if (v === undefined) throw new Unsupported("use before init", n);
			if (v.k === "val" && !v.raw) return this.unbox(v, this.typeOf(n));
			return v;
		}
		return this.globalIdent(s, n, st, ex);
	}
	globalIdent(s: ts.Symbol, n: ts.Node, st: State, ex: Exits): SV {
		const d = s.valueDeclaration ?? s.declarations?.[0];
		const name = s.name;
		if (d) {
			if (ts.isFunctionDeclaration(d)) {
				let impl: ts.FunctionDeclaration = d;
				if (!d.body) { const i = s.declarations!.find((x) => ts.isFunctionDeclaration(x) && (x as ts.FunctionDeclaration).body); if (i) impl = i as ts.FunctionDeclaration; }
				return this.fnFor(impl, name);
			}
			if (ts.isClassDeclaration(d) && !d.getSourceFile().isDeclarationFile) return mkFn({ cls: d, name });
			if (ts.isVariableDeclaration(d) && !d.getSourceFile().isDeclarationFile) return this.moduleConst(d, n, st, ex);
			if (ts.isEnumMember(d)) throw new Unsupported("enum", n);
		}
		const g = globalValue(name);
		if (g) return g;
		if (this.ext.has(name) || d && (ts.isMethodSignature(d) || ts.isPropertySignature(d) && d.getSourceFile().isDeclarationFile)) return mkFn({ name });
		throw new Unsupported(`global ${name}`, n);
	}
	fnCache = new Map<ts.Node, SV>();
	fnFor(d: ts.FunctionLikeDeclaration, name: string): SV {
		let f = this.fnCache.get(d);
		if (!f) { f = mkFn({ decl: d, scope: new Scope(), name }); this.fnCache.set(d, f); }
		return f;
	}
	moduleConst(d: ts.VariableDeclaration, n: ts.Node, st: State, ex: Exits): SV {
		const hit = this.moduleCells.get(d);
		if (hit) return hit;
		const list = d.parent;
		if (!(list.flags & ts.NodeFlags.Const)) throw new Unsupported("mutable module variable", n);
		if (!d.initializer) throw new Unsupported("module variable without initializer", n);
		const extName = ts.isIdentifier(d.name) ? d.name.text : "";
		if (this.ext.get(extName)?.kind === "const") {
			const t = T.konst(`glob_${extName}`, "Val");
			const r = this.typed(t, this.typeOf(d.name), st, T.TRUE);
			this.moduleCells.set(d, r);
			return r;
		}
		this.inModuleInit++;
		const st2 = new State(new Heap({ kind: "base", id: 0, A: T.konst("A!0", "Int") }));
		const sc = new Scope();
		const saved = this.boundStack;
		this.boundStack = [];
		try {
			const v = this.eval(d.initializer, st2, sc, new Exits());
			this.moduleCells.set(d, v);
			return v;
		} finally { this.inModuleInit--; this.boundStack = saved; }
	}
	newConst(tag: number, o: any): Term {
		const id = -this.nextConst++;
		this.constObjs.set(String(id), { fields: new Map(), ...o, tag } as any);
		return T.int(id);
	}
	needRef(v: SV, st: State, ex: Exits, n: ts.Node): Term {
		if (v.k === "ref") return v.t;
		if (v.k === "val") {
			const isR = T.is("R", v.t);
			if (!st.pc.includes(isR) && isR !== T.TRUE) {
				const nul = nullish(v);
				this.throwIf(st, ex, nul, "TypeError", n);
			}
			return T.sel("rv", v.t);
		}
		if (v.k === "undef" || v.k === "null") { this.throwIf(st, ex, T.TRUE, "TypeError", n); return T.int(0); }
		throw new Unsupported(`object expected, got ${v.k}`, n);
	}
	throwIf(st: State, ex: Exits, c: Term, cls: string, n: ts.Node) {
		if (c === T.FALSE || st.dead) return;
		const s = st.fork(c);
		if (!s.dead) {
			const r = this.alloc(TAG.ERR);
			ex.throws.push({ st: s, v: svRef(r), node: n });
		}
		st.assume(T.not(c));
	}
	/** declared type of property on an object expression type */
	propType(objTy: ts.Type, name: string, n: ts.Node): ts.Type | undefined {
		const nn = this.checker.getNonNullableType(objTy);
		const p = this.checker.getPropertyOfType(nn, name);
		if (p) return this.checker.getTypeOfSymbolAtLocation(p, n);
		return undefined;
	}
	propAccess(n: ts.PropertyAccessExpression, st: State, sc: Scope, ex: Exits): SV {
		const g = this.staticMember(n, st, sc, ex);
		if (g) return g;
		const o = this.eval(n.expression, st, sc, ex);
		if (st.dead) return UNDEF;
		if (n.questionDotToken || this.isOptChain(n)) {
			const nul = nullish(o);
			if (n.questionDotToken) return this.branch(st, nul, () => UNDEF, (s) => this.getProp(o, n.name.text, n, n.expression, s, ex));
			// continuation of an optional chain: propagate undefined
			return this.branch(st, T.is("Undef", box(o)), () => UNDEF, (s) => this.getProp(o, n.name.text, n, n.expression, s, ex));
		}
		return this.getProp(o, n.name.text, n, n.expression, st, ex);
	}
	isOptChain(n: ts.Node): boolean { return (n.flags & ts.NodeFlags.OptionalChain) !== 0; }
	staticMember(n: ts.PropertyAccessExpression, st: State, sc: Scope, ex: Exits): SV | undefined {
		if (!ts.isIdentifier(n.expression)) return undefined;
		const s0 = this.checker.getSymbolAtLocation(n.expression);
		if (!s0) return undefined;
		if (sc.lookup(s0)) return undefined;
		let s = s0;
		if (s.flags & ts.SymbolFlags.Alias) s = this.checker.getAliasedSymbol(s);
		const d = s.declarations?.[0];
		if (s.flags & ts.SymbolFlags.ValueModule || (d && ts.isSourceFile(d))) {
			const m = this.symbolOf(n.name);
			if (m) {
				const q = `${n.expression.text}.${n.name.text}`;
				return mkFn({ name: q, decl: m.valueDeclaration && ts.isFunctionDeclaration(m.valueDeclaration) && m.valueDeclaration.body ? m.valueDeclaration : undefined, scope: new Scope() });
			}
		}
		if (d && (d.getSourceFile().isDeclarationFile)) {
			const g = globalValue(`${n.expression.text}.${n.name.text}`);
			if (g) return g;
			return mkFn({ name: `${n.expression.text}.${n.name.text}` });
		}
		if (!d) return mkFn({ name: `${n.expression.text}.${n.name.text}` });
		if (ts.isImportSpecifier(d) || ts.isImportClause(d) || ts.isNamespaceImport(d)) return mkFn({ name: `${n.expression.text}.${n.name.text}` });
		if (ts.isClassDeclaration(d)) {
			const m = this.checker.getSymbolAtLocation(n.name)?.valueDeclaration;
			if (m && ts.isMethodDeclaration(m)) return this.fnFor(m, n.name.text);
			if (m && ts.isPropertyDeclaration(m) && m.initializer) return this.moduleConst(m as any, n, st, ex);
		}
		return undefined;
	}
	getProp(o: SV, name: string, n: ts.Node, objNode: ts.Expression | undefined, st: State, ex: Exits): SV {
		if (st.dead) return UNDEF;
		if (o.k === "str") {
			if (name === "length") return svInt(this.strLen(o.t));
			throw new Unsupported(`string property ${name}`, n);
		}
		if (o.k === "val" && o.raw && name === "length") {
			// dynamic: string or array
			const isS = T.is("S", o.t);
			return this.branch(st, isS, () => svInt(this.strLen(T.sel("sv", o.t))), (s) => { const r = this.needRef(o, s, ex, n); return svInt(this.hread(s.heap, "#len", r)); });
		}
		if (o.k === "fn") {
			if (o.f.cls && name === "name") return svStrLit(o.f.name);
			throw new Unsupported(`property of function ${name}`, n);
		}
		const objTy = objNode ? this.typeOf(objNode) : undefined;
		const apparent = objTy ? this.checker.getNonNullableType(objTy) : undefined;
		const r = this.needRef(o, st, ex, n);
		if (st.dead) return UNDEF;
		const raw = (o as any).raw === true && !(apparent && this.isTrustedRef(o));
		if (name === "length" && apparent && this.isArrayish(apparent)) return svInt(this.lenOf(st, r));
		if (name === "size" && apparent && /^(Readonly)?(Map|Set)$/.test(apparent.symbol?.name ?? "")) return svInt(this.hread(st.heap, "#msize", r));
		// accessor?
		if (apparent) {
			const p = this.checker.getPropertyOfType(apparent, name) ?? this.privateProp(n);
			const d = p?.valueDeclaration;
			if (d && ts.isGetAccessorDeclaration(d) && d.body) return this.inlineCall({ id: 0, decl: d, scope: new Scope(), thisV: o, name }, [], st, ex, n);
			if (d && ts.isMethodDeclaration(d) && d.body && !ts.isObjectLiteralExpression(d.parent)) return mkFn({ decl: d, scope: new Scope(), thisV: o, name });
		}
		const t = this.hread(st.heap, name, r);
		const ty = apparent ? this.propType(apparent, name, n) ?? (ts.isPropertyAccessExpression(n) ? this.typeOf(n) : undefined) : undefined;
		if (raw) return svVal(t, true);
		const v = this.typed(t, ty, st, T.TRUE, name);
		if (v.k === "val" && !v.raw) { const nt = this.typeOf(n); return this.unbox(v, ts.isPropertyAccessExpression(n) ? nt : undefined); }
		return v;
	}
	privateProp(n: ts.Node): ts.Symbol | undefined {
		if (ts.isPropertyAccessExpression(n) && ts.isPrivateIdentifier(n.name)) return this.checker.getSymbolAtLocation(n.name);
		return undefined;
	}
	isTrustedRef(o: SV): boolean { return false; }
	isArrayish(t: ts.Type): boolean {
		if (t.isUnion()) return t.types.every((x) => this.isArrayish(x));
		return this.checker.isArrayType(t) || this.checker.isTupleType(t) || t.symbol?.name === "ReadonlyArray";
	}
	strLen(s: Term): Term {
		if (s.op === "strlit") return T.int(s.name!.length);
		if (s.op === "ite") return T.ite(s.args[0], this.strLen(s.args[1]), this.strLen(s.args[2]));
		if (this.strMode === "S") return T.raw("str.len", [s], "Int");
		const l = T.app("str_len", [s], "Int");
		this.addFact(T.le(T.int(0), l));
		this.addFact(T.eq(T.eq(l, T.int(0)), T.eq(s, T.strLit(""))));
		return l;
	}
	lenOf(st: State, r: Term): Term {
		const it = this.iterSeqs.get(r.id);
		if (it) return it.len;
		const l = this.hread(st.heap, "#len", r);
		if (l.op !== "int") this.addFact(T.le(T.int(0), l));
		return l;
	}
	elemType(ty: ts.Type | undefined): ts.Type | undefined {
		if (!ty) return undefined;
		const nn = this.checker.getNonNullableType(ty);
		if (nn.isUnion()) {
			return this.checker.getIndexTypeOfType(nn, ts.IndexKind.Number);
		}
		return this.checker.getIndexTypeOfType(nn, ts.IndexKind.Number) ?? undefined;
	}
	/** element i (in range) */
	elAt(st: State, r: Term, i: Term, ety: ts.Type | undefined, raw = false): SV {
		const el = this.hread(st.heap, "#el", r);
		const t = this.sel(el, i);
		if (raw) return svVal(t, true);
		if (!ety) return svVal(t, true);
		return this.typed(t, ety, st, T.TRUE);
	}
	inRange(st: State, i: Term, len: Term): Term { return T.and(T.le(T.int(0), i), T.lt(i, len)); }
	elemAccess(n: ts.ElementAccessExpression, st: State, sc: Scope, ex: Exits): SV {
		const o = this.eval(n.expression, st, sc, ex);
		if (st.dead) return UNDEF;
		const go = (s: State): SV => {
			const k = this.eval(n.argumentExpression, s, sc, ex);
			if (s.dead) return UNDEF;
			return this.index(o, k, n, s, ex);
		};
		if (n.questionDotToken) return this.branch(st, nullish(o), () => UNDEF, go);
		if (this.isOptChain(n)) return this.branch(st, T.is("Undef", box(o)), () => UNDEF, go);
		return go(st);
	}
	index(o: SV, k: SV, n: ts.ElementAccessExpression, st: State, ex: Exits): SV {
		const oty = this.checker.getNonNullableType(this.typeOf(n.expression));
		if (o.k === "str" || (this.isKind(oty, "str") && o.k === "val")) {
			const s = o.k === "str" ? o.t : T.sel("sv", o.t);
			const i = this.asInt(k, n);
			const inr = this.inRange(st, i, this.strLen(s));
			return svVal(T.ite(inr, T.ctor("S", this.strAt(s, i)), T.UNDEF));
		}
		if (k.k === "str" && k.t.op === "strlit") return this.getProp(o, k.t.name!, n, n.expression, st, ex);
		const r = this.needRef(o, st, ex, n);
		if (st.dead) return UNDEF;
		if (this.isArrayish(oty) || k.k === "int") {
			const i = this.asInt(k, n);
			const len = this.lenOf(st, r);
			const inr = this.inRange(st, i, len);
			if (this.holds(st, inr)) return this.elAt(st, r, i, this.elemType(oty), (o as any).raw);
			const s2 = st.fork(inr);
			const v = this.elAt(s2, r, i, this.elemType(oty), (o as any).raw);
			const m = mergeSV(inr, v, UNDEF);
			return m.k === "val" ? { ...m, raw: (o as any).raw || m.raw, ...( { oob: true } as any) } : m;
		}
		// dynamic string key
		const kty = this.typeOf(n.argumentExpression);
		const lits = this.literalUnion(kty);
		if (lits && !(k as any).raw) {
			// finite key type: case split
			const ks = k.k === "str" ? k.t : T.sel("sv", box(k));
			let acc: SV | undefined;
			for (const l of lits) {
				const v = this.getProp(o, l, n, n.expression, st, ex);
				acc = acc === undefined ? v : mergeSV(T.eq(ks, T.strLit(l)), v, acc);
			}
			return acc!;
		}
		const ks = this.asStr(k, n);
		const t = this.sel(this.hread(st.heap, "#rec", r), ks);
		const decl = this.checker.getIndexTypeOfType(oty, ts.IndexKind.String);
		if ((o as any).raw || !decl) return svVal(t, true);
		const v = this.typed(t, undefined, st);
		// may be absent
		this.addFact(T.implies(pcT(st), T.or(T.is("Undef", t), this.typeFact(t, decl))));
		return v.k === "val" ? { ...v, raw: false } : v;
	}
	literalUnion(ty: ts.Type): string[] | undefined {
		const parts = ty.isUnion() ? ty.types : [ty];
		const out: string[] = [];
		for (const p of parts) { if (!(p.flags & ts.TypeFlags.StringLiteral)) return undefined; out.push((p as ts.StringLiteralType).value); }
		return out;
	}
	holds(st: State, c: Term): boolean {
		if (c === T.TRUE) return true;
		const set = new Set(st.pc.map((p) => p.id));
		for (const b of this.boundStack) { set.add(b.guard.id); if (b.guard.op === "and") for (const x of b.guard.args) set.add(x.id); }
		if (set.has(c.id)) return true;
		if (c.op === "and") return c.args.every((x) => set.has(x.id) || x === T.TRUE || this.trivLe(x, set));
		return this.trivLe(c, set);
	}
	trivLe(c: Term, set: Set<number>): boolean {
		return set.has(c.id);
	}
	asInt(k: SV, n: ts.Node): Term {
		if (k.k === "int") return k.t;
		if (k.k === "val") return T.ite(T.is("NI", k.t), T.sel("ni", k.t), T.int(-1));
		if (k.k === "real") return T.ite(T.isIntR(k.t), T.toInt(k.t), T.int(-1));
		throw new Unsupported("index kind " + k.k, n);
	}
	asStr(k: SV, n: ts.Node): Term {
		if (k.k === "str") return k.t;
		if (k.k === "val") return T.ite(T.is("S", k.t), T.sel("sv", k.t), T.app("to_string", [k.t], "Str"));
		throw new Unsupported("string expected: " + k.k, n);
	}
	strAt(s: Term, i: Term): Term {
		if (this.strMode === "S") return T.raw("str.at", [s, i], "Str");
		return T.app("str_at", [s, i], "Str");
	}
	prefix(n: ts.PrefixUnaryExpression, st: State, sc: Scope, ex: Exits): SV {
		const SK = ts.SyntaxKind;
		if (n.operator === SK.PlusPlusToken || n.operator === SK.MinusMinusToken) {
			const old = this.eval(n.operand, st, sc, ex);
			const v = n.operator === SK.PlusPlusToken ? nadd(old, svInt(T.int(1))) : nsub(old, svInt(T.int(1)));
			this.assignTo(n.operand, v, st, sc, ex);
			return v;
		}
		const v = this.eval(n.operand, st, sc, ex);
		switch (n.operator) {
			case SK.ExclamationToken: return svBool(T.not(truthy(v)));
			case SK.MinusToken: return nneg(v);
			case SK.PlusToken: if (v.k === "int" || v.k === "real") return v; break;
		}
		throw new Unsupported("prefix operator", n);
	}
	binary(n: ts.BinaryExpression, st: State, sc: Scope, ex: Exits): SV {
		const SK = ts.SyntaxKind;
		const op = n.operatorToken.kind;
		if (op === SK.AmpersandAmpersandToken || op === SK.BarBarToken || op === SK.QuestionQuestionToken) {
			const l = this.eval(n.left, st, sc, ex);
			if (st.dead) return UNDEF;
			const c = op === SK.QuestionQuestionToken ? T.not(nullish(l)) : truthy(l);
			const rhs = (s: State) => this.eval(n.right, s, sc, ex);
			if (op === SK.AmpersandAmpersandToken) {
				const v = this.branch(st, c, rhs, () => l);
				return v;
			}
			const l2 = op === SK.QuestionQuestionToken && l.k === "val" && (l as any).rf && l.ty ? this.unbox(l, this.checker.getNonNullableType(l.ty)) : this.stripFalsy(l, op);
			const v = this.branch(st, c, () => l2, rhs);
			return v.k === "val" && !v.raw ? this.unbox(v, this.typeOf(n)) : v;
		}
		if (op === SK.CommaToken) { this.eval(n.left, st, sc, ex); return this.eval(n.right, st, sc, ex); }
		if (op === SK.EqualsToken) {
			if (ts.isArrayLiteralExpression(n.left) || ts.isObjectLiteralExpression(n.left)) throw new Unsupported("destructuring assignment", n);
			const v = this.eval(n.right, st, sc, ex);
			this.assignTo(n.left, v, st, sc, ex);
			return v;
		}
		if (op === SK.QuestionQuestionEqualsToken || op === SK.BarBarEqualsToken || op === SK.AmpersandAmpersandEqualsToken) {
			const l = this.eval(n.left, st, sc, ex);
			const c = op === SK.QuestionQuestionEqualsToken ? nullish(l) : op === SK.BarBarEqualsToken ? T.not(truthy(l)) : truthy(l);
			return this.branch(st, c, (s) => { const v = this.eval(n.right, s, sc, ex); if (!s.dead) this.assignTo(n.left, v, s, sc, ex); return v; }, () => l);
		}
		const compound: Record<number, number> = {
			[SK.PlusEqualsToken]: SK.PlusToken, [SK.MinusEqualsToken]: SK.MinusToken, [SK.AsteriskEqualsToken]: SK.AsteriskToken,
			[SK.SlashEqualsToken]: SK.SlashToken, [SK.PercentEqualsToken]: SK.PercentToken, [SK.BarEqualsToken]: SK.BarToken, [SK.AmpersandEqualsToken]: SK.AmpersandToken,
		};
		if (compound[op] !== undefined) {
			const l = this.eval(n.left, st, sc, ex);
			const r = this.eval(n.right, st, sc, ex);
			const v = this.arith(compound[op], l, r, n, st);
			this.assignTo(n.left, v, st, sc, ex);
			return v;
		}
		if (op === SK.InstanceOfKeyword) {
			const l = this.eval(n.left, st, sc, ex);
			return svBool(this.instanceOf(l, n.right, n));
		}
		if (op === SK.InKeyword) {
			const l = this.eval(n.left, st, sc, ex), r = this.eval(n.right, st, sc, ex);
			const ref = this.needRef(r, st, ex, n);
			if (l.k === "str" && l.t.op === "strlit" && !this.isRecord(this.typeOf(n.right))) return svBool(this.hasField(st, ref, l.t.name!));
			if (l.k === "str" && this.isRecord(this.typeOf(n.right))) return svBool(T.not(T.is("Undef", this.sel(this.hread(st.heap, "#rec", ref), l.t))));
			throw new Unsupported("in with dynamic key", n);
		}
		const l = this.eval(n.left, st, sc, ex);
		if (st.dead) return UNDEF;
		const r = this.eval(n.right, st, sc, ex);
		if (st.dead) return UNDEF;
		switch (op) {
			case SK.EqualsEqualsEqualsToken: return svBool(strictEq(l, r));
			case SK.ExclamationEqualsEqualsToken: return svBool(T.not(strictEq(l, r)));
			case SK.EqualsEqualsToken: case SK.ExclamationEqualsToken: {
				let t: Term;
				if (r.k === "null" || r.k === "undef") t = nullish(l);
				else if (l.k === "null" || l.k === "undef") t = nullish(r);
				else throw new Unsupported("loose equality", n);
				return svBool(op === SK.EqualsEqualsToken ? t : T.not(t));
			}
		}
		return this.arith(op, l, r, n, st);
	}
	/** the object has an own (or inherited) property: defined value, or explicitly present */
	hasField(st: State, ref: Term, f: string): Term {
		const v = this.hread(st.heap, f, ref);
		return T.or(T.not(T.is("Undef", v)), T.app("has_undef_prop", [ref, T.strLit(f)], "Bool"));
	}
	stripFalsy(l: SV, op: number): SV {
		return l;
	}
	instanceOf(l: SV, right: ts.Expression, n: ts.Node): Term {
		const name = right.getText();
		if (l.k !== "ref" && l.k !== "val") return T.FALSE;
		const b = box(l);
		const r = T.sel("rv", b);
		const isR = T.is("R", b);
		if (name === "Map") return T.and(isR, T.eq(this.tag(r), T.int(TAG.MAP)));
		if (name === "Set") return T.and(isR, T.eq(this.tag(r), T.int(TAG.SET)));
		if (name === "Array") return T.and(isR, T.eq(this.tag(r), T.int(TAG.ARR)));
		return T.and(isR, T.app(`instanceof_${name.replace(/\W/g, "_")}`, [r], "Bool"));
	}
	arith(op: ts.SyntaxKind, l: SV, r: SV, n: ts.BinaryExpression, st: State): SV {
		const SK = ts.SyntaxKind;
		const strish = (v: SV, e: ts.Expression) => v.k === "str" || (v.k === "val" && this.isKind(this.typeOf(e), "str"));
		if (op === SK.PlusToken) {
			if (strish(l, n.left) || strish(r, n.right)) {
				return this.concat([this.toStr(l, st), this.toStr(r, st)]);
			}
			this.reqNum(l, n); this.reqNum(r, n);
			return nadd(l, r);
		}
		if (op === SK.LessThanToken || op === SK.LessThanEqualsToken || op === SK.GreaterThanToken || op === SK.GreaterThanEqualsToken) {
			if (strish(l, n.left) && strish(r, n.right)) {
				const a = l.k === "str" ? l.t : T.sel("sv", box(l)), b = r.k === "str" ? r.t : T.sel("sv", box(r));
				const ltS = (x: Term, y: Term) => this.strLt(x, y);
				if (op === SK.LessThanToken) return svBool(ltS(a, b));
				if (op === SK.GreaterThanToken) return svBool(ltS(b, a));
				if (op === SK.LessThanEqualsToken) return svBool(T.not(ltS(b, a)));
				return svBool(T.not(ltS(a, b)));
			}
			this.reqNum(l, n); this.reqNum(r, n);
			if (op === SK.LessThanToken) return svBool(nlt(l, r));
			if (op === SK.LessThanEqualsToken) return svBool(nle(l, r));
			if (op === SK.GreaterThanToken) return svBool(nlt(r, l));
			return svBool(nle(r, l));
		}
		this.reqNum(l, n); this.reqNum(r, n);
		switch (op) {
			case SK.MinusToken: return nsub(l, r);
			case SK.AsteriskToken: this.mulFacts(l, r); return nmul(l, r);
			case SK.SlashToken: return ndiv(l, r);
			case SK.AsteriskAsteriskToken: {
				if (r.k === "int" && r.t.op === "int" && Number(r.t.name) >= 0 && Number(r.t.name) <= 8) {
					let a: SV = svInt(T.int(1));
					for (let i = 0; i < Number(r.t.name); i++) a = nmul(a, l);
					return a;
				}
				if (l.k === "int" && l.t.op === "int" && BigInt(l.t.name!) >= 2n) return npow(BigInt(l.t.name!), r, (f) => this.addFact(f));
				break;
			}
			case SK.PercentToken: {
				if (l.k === "int" && r.k === "int" && r.t.op === "int" && Number(r.t.name) > 0) {
					const m = T.imod(l.t, r.t);
					// JS remainder has the sign of the dividend
					return svInt(T.ite(T.le(T.int(0), l.t), m, T.sub(T.int(0), T.imod(T.sub(T.int(0), l.t), r.t))));
				}
				break;
			}
			case SK.BarToken: case SK.AmpersandToken: case SK.GreaterThanGreaterThanToken: case SK.LessThanLessThanToken: case SK.CaretToken: case SK.GreaterThanGreaterThanGreaterThanToken: {
				if (op === SK.GreaterThanGreaterThanGreaterThanToken || op === SK.GreaterThanGreaterThanToken) {
					if (r.k === "int" && r.t.op === "int" && l.k === "int") {
						// exact for 0 <= l < 2^31
						const k = T.int(2n ** BigInt(r.t.name!));
						return svInt(T.ite(T.and(T.le(T.int(0), l.t), T.lt(l.t, T.int(2n ** 31n))), T.idiv(l.t, k), T.app("bitop", [T.int(op), l.t, r.t], "Int")));
					}
				}
				return svInt(T.app("bitop", [T.int(op), this.asInt(l, n), this.asInt(r, n)], "Int"));
			}
		}
		throw new Unsupported(`operator ${SK[op]}`, n);
	}
	strLt(a: Term, b: Term): Term {
		if (a === b) return T.FALSE;
		if (this.strMode === "S") return T.raw("str.<", [a, b], "Bool");
		const t = T.app("str_lt", [a, b], "Bool");
		this.addFact(T.not(T.and(t, T.app("str_lt", [b, a], "Bool"))));
		this.addFact(T.or(t, T.app("str_lt", [b, a], "Bool"), T.eq(a, b)));
		return t;
	}
	reqNum(v: SV, n: ts.Node) {
		if (v.k === "str" || v.k === "ref" || v.k === "fn") throw new Unsupported(`number expected, got ${v.k}`, n);
	}
	// ---------- assignment
	assignTo(target: ts.Expression, v: SV, st: State, sc: Scope, ex: Exits) {
		if (st.dead) return;
		if (ts.isParenthesizedExpression(target) || ts.isNonNullExpression(target) || ts.isAsExpression(target)) return this.assignTo((target as any).expression, v, st, sc, ex);
		if (ts.isIdentifier(target)) {
			const s = this.symbolOf(target);
			const c = s && sc.lookup(s);
			if (!c) throw new Unsupported("assignment to non-local", target);
			st.cells.set(c, v);
			return;
		}
		if (ts.isPropertyAccessExpression(target)) {
			const o = this.eval(target.expression, st, sc, ex);
			const r = this.needRef(o, st, ex, target);
			if (st.dead) return;
			if (target.name.text === "length" && this.isArrayish(this.checker.getNonNullableType(this.typeOf(target.expression)))) {
				if (v.k !== "int") throw new Unsupported("array length assignment", target);
				this.hwrite(st, "#len", r, v.t, target);
				return;
			}
			const p = this.checker.getPropertyOfType(this.checker.getNonNullableType(this.typeOf(target.expression)), target.name.text);
			if (p?.valueDeclaration && ts.isSetAccessorDeclaration(p.valueDeclaration)) throw new Unsupported("setter", target);
			this.hwrite(st, target.name.text, r, box(v), target);
			return;
		}
		if (ts.isElementAccessExpression(target)) {
			const o = this.eval(target.expression, st, sc, ex);
			const k = this.eval(target.argumentExpression, st, sc, ex);
			const r = this.needRef(o, st, ex, target);
			if (st.dead) return;
			if (k.k === "str" && k.t.op === "strlit") { this.hwrite(st, k.t.name!, r, box(v), target); return; }
			const oty = this.checker.getNonNullableType(this.typeOf(target.expression));
			if (k.k === "int" || this.isArrayish(oty)) {
				const i = this.asInt(k, target);
				const el = this.hread(st.heap, "#el", r);
				const len = this.lenOf(st, r);
				this.hwrite(st, "#el", r, T.store(el, i, box(v)), target);
				this.hwrite(st, "#len", r, T.ite(T.lt(i, len), len, T.add(i, T.int(1))), target);
				return;
			}
			const kty = this.typeOf(target.argumentExpression);
			const lits = this.literalUnion(kty);
			if (lits) {
				const ks = this.asStr(k, target);
				for (const l of lits) {
					const old = this.hread(st.heap, l, r);
					this.hwrite(st, l, r, T.ite(T.eq(ks, T.strLit(l)), box(v), old), target);
				}
				return;
			}
			const ks = this.asStr(k, target);
			const rec = this.hread(st.heap, "#rec", r);
			this.hwrite(st, "#rec", r, T.store(rec, ks, box(v)), target);
			return;
		}
		throw new Unsupported("assignment target", target);
	}
	bindPattern(name: ts.BindingName, v: SV, st: State, sc: Scope, ex: Exits, ty?: ts.Type) {
		if (st.dead) return;
		if (ts.isIdentifier(name)) {
			const s = this.checker.getSymbolAtLocation(name)!;
			const c = new Cell(name.text, ty);
			sc.vars.set(s, c);
			st.cells.set(c, v);
			return;
		}
		if (ts.isObjectBindingPattern(name)) {
			const used: string[] = [];
			for (const e of name.elements) {
				if (e.dotDotDotToken) {
					const r = this.needRef(v, st, ex, e);
					const nr = this.alloc(TAG.PLAIN);
					this.copyFields(st, r, nr, this.typeOf(name), new Set(used), e);
					this.bindPattern(e.name, svRef(nr), st, sc, ex);
					continue;
				}
				const key = e.propertyName ? (ts.isIdentifier(e.propertyName) || ts.isStringLiteral(e.propertyName) ? e.propertyName.text : undefined) : (e.name as ts.Identifier).text;
				if (key === undefined) throw new Unsupported("computed destructuring", e);
				used.push(key);
				const r = this.needRef(v, st, ex, e);
				const oty = this.typeOf(name);
				let x: SV;
				const p = this.checker.getPropertyOfType(this.checker.getNonNullableType(oty), key);
				if (key === "length" && this.isArrayish(oty)) x = svInt(this.lenOf(st, r));
				else {
					const t = this.hread(st.heap, key, r);
					x = (v as any).raw ? svVal(t, true) : this.typed(t, p ? this.checker.getTypeOfSymbolAtLocation(p, name) : this.typeOf(e.name), st, T.TRUE, key);
				}
				if (e.initializer) x = this.branch(st, T.is("Undef", box(x)), (s) => this.eval(e.initializer!, s, sc, ex), () => x);
				this.bindPattern(e.name, x, st, sc, ex);
			}
			return;
		}
		// array pattern
		const r = this.needRef(v, st, ex, name);
		const aty = this.typeOf(name);
		name.elements.forEach((e, i) => {
			if (ts.isOmittedExpression(e)) return;
			if (e.dotDotDotToken) throw new Unsupported("array rest pattern", e);
			const len = this.lenOf(st, r);
			const inr = T.lt(T.int(i), len);
			const t = this.sel(this.hread(st.heap, "#el", r), T.int(i));
			const ety = this.typeOf(e.name);
			let x: SV;
			if (inr === T.TRUE || this.checker.isTupleType(aty)) x = (v as any).raw ? svVal(t, true) : this.typed(t, ety, st);
			else x = mergeSV(inr, this.typed(t, ety, st, inr), UNDEF);
			if (e.initializer) { const x0 = x; x = this.branch(st, T.is("Undef", box(x0)), (s) => this.eval(e.initializer!, s, sc, ex), () => x0); }
			this.bindPattern(e.name, x, st, sc, ex);
		});
	}
	// ---------- literals
	propNames(ty: ts.Type): string[] {
		const nn = this.checker.getNonNullableType(ty);
		const out = new Set<string>();
		const parts = nn.isUnion() ? nn.types : [nn];
		for (const p of parts) for (const s of this.checker.getPropertiesOfType(p)) {
			if (s.name.startsWith("__@")) continue;
			const d = s.valueDeclaration;
			if (d && (ts.isMethodDeclaration(d) || ts.isGetAccessorDeclaration(d))) continue;
			out.add(s.name);
		}
		return [...out];
	}
	copyFields(st: State, from: Term, to: Term, ty: ts.Type, except: Set<string>, n: ts.Node) {
		const nn = this.checker.getNonNullableType(ty);
		if (this.isUntrustedType(nn)) throw new Unsupported("spread of untyped object", n);
		for (const f of this.propNames(nn)) {
			if (except.has(f)) continue;
			const v = this.hread(st.heap, f, from);
			this.hwrite(st, f, to, v, n);
		}
		// dictionary part
		this.hwrite(st, "#rec", to, this.hread(st.heap, "#rec", from), n);
	}
	/** sign and bound lemmas of a nonlinear product (theorems of real arithmetic) */
	mulFacts(a: SV, b: SV) {
		const x = view(a), y = view(b);
		const lit = (t: Term) => t.op === "reallit" || t.op === "int" || t.op === "to_real" && t.args[0].op === "int";
		if (lit(x.r) || lit(y.r)) return;
		const z = T.realLit("0.0"), one = T.realLit("1.0"), p = T.mul(x.r, y.r);
		const nx = T.le(z, x.r), ny = T.le(z, y.r);
		if (p.op !== "*" || p.args.some(lit)) return;
		const h = T.and(
			T.implies(T.and(nx, ny), T.le(z, p)),
			T.implies(T.and(nx, ny, T.le(y.r, one)), T.le(p, x.r)),
			T.implies(T.and(nx, ny, T.le(x.r, one)), T.le(p, y.r)),
			T.implies(T.and(nx, T.le(one, y.r)), T.le(x.r, p)),
			T.implies(T.and(ny, T.le(one, x.r)), T.le(y.r, p)));
		T.hints.add(h.id);
		this.addFact(h);
	}
	objLit(n: ts.ObjectLiteralExpression, st: State, sc: Scope, ex: Exits): SV {
		const r = this.inModuleInit ? this.newConst(TAG.PLAIN, {}) : this.alloc(TAG.PLAIN);
		const set = new Set<string>();
		const cty = this.checker.getContextualType(n);
		const vals: [string, SV][] = [];
		const written = new Set<string>();
		let spread = false;
		if (!this.inModuleInit) {
			// fields declared by the contextual/own type that are not mentioned are absent
			const names = new Set<string>();
			for (const t of [this.typeOf(n), ...(cty ? [cty] : [])]) if (!this.isUntrustedType(t)) for (const f of this.propNames(t)) names.add(f);
			const mentioned = new Set<string>();
			for (const p of n.properties) if (p.name && (ts.isIdentifier(p.name) || ts.isStringLiteral(p.name))) mentioned.add(p.name.text);
			for (const f of names) if (!mentioned.has(f)) this.hwrite(st, f, r, T.UNDEF, n);
			if (n.properties.length === 0 || this.checker.getIndexTypeOfType(this.typeOf(n), ts.IndexKind.String) || (cty && this.checker.getIndexTypeOfType(cty, ts.IndexKind.String)))
				this.hwrite(st, "#rec", r, T.constArr("(Array Str Val)", T.UNDEF), n);
			this.freshObjs.add(r.id);
		}
		for (const p of n.properties) {
			if (st.dead) return UNDEF;
			if (ts.isPropertyAssignment(p) || ts.isShorthandPropertyAssignment(p)) {
				let key: string | undefined;
				if (ts.isIdentifier(p.name) || ts.isStringLiteral(p.name) || ts.isNumericLiteral(p.name)) key = p.name.text;
				else if (ts.isComputedPropertyName(p.name)) {
					const k = this.eval(p.name.expression, st, sc, ex);
					if (k.k === "str" && k.t.op === "strlit") key = k.t.name!;
					else if (k.k === "str") {
						const v = this.eval((p as ts.PropertyAssignment).initializer, st, sc, ex);
						this.hwrite(st, "#rec", r, T.store(this.hread(st.heap, "#rec", r), k.t, box(v)), n);
						continue;
					}
				}
				if (key === undefined) throw new Unsupported("computed property", p);
				const v = ts.isPropertyAssignment(p) ? this.eval(p.initializer, st, sc, ex) : this.ident(p.name, st, sc, ex);
				this.hwrite(st, key, r, box(v), n);
				if (this.hasIndexOnly(n)) this.hwrite(st, "#rec", r, T.store(this.hread(st.heap, "#rec", r), T.strLit(key), box(v)), n);
				written.add(key);
			} else if (ts.isSpreadAssignment(p)) {
				spread = true;
				const v = this.eval(p.expression, st, sc, ex);
				const sty = this.typeOf(p.expression);
				this.spreadInto(v, sty, r, st, ex, p);
			} else if (ts.isMethodDeclaration(p) && ts.isIdentifier(p.name)) {
				this.hwrite(st, p.name.text, r, box(mkFn({ decl: p, scope: sc, thisV: svRef(r), name: p.name.text })), n);
			} else throw new Unsupported("object member", p);
		}
		return svRef(r);
	}
	freshObjs = new Set<number>();
	hasIndexOnly(n: ts.ObjectLiteralExpression): boolean {
		const c = this.checker.getContextualType(n);
		return !!c && !!this.checker.getIndexTypeOfType(c, ts.IndexKind.String) && !this.inModuleInit;
	}
	spreadInto(v: SV, sty: ts.Type, r: Term, st: State, ex: Exits, n: ts.Node) {
		if (v.k === "undef" || v.k === "null" || v.k === "bool") return;
		const isObj = v.k === "ref" ? T.TRUE : T.is("R", box(v));
		const from = v.k === "ref" ? v.t : T.sel("rv", box(v));
		// a spread overrides only the fields present in the source
		let names = this.spreadNames(sty);
		if (names === undefined) throw new Unsupported("spread of untyped object", n);
		const nsty = this.checker.getNonNullableType(sty);
		if ((nsty.isIntersection() ? nsty.types : [nsty]).some((t) => t.flags & ts.TypeFlags.TypeParameter)) {
			// the type parameter hides fields: copy every field known to the heap, leave the others unknown
			names = [...new Set([...names, ...[...st.heap.m.keys()].filter((f) => !f.startsWith("#") && !f.startsWith("ghost:"))])];
		}
		for (const f of names) {
			const nv = this.hread(st.heap, f, from);
			const old = this.hread(st.heap, f, r);
			// conditional spread of literals: optional field may be absent
			const present = T.and(isObj, T.not(T.is("Undef", nv)));
			this.hwrite(st, f, r, T.ite(present, nv, this.fieldAlwaysPresent(sty, f) && isObj === T.TRUE ? nv : old), n);
		}
		if (this.checker.getIndexTypeOfType(this.checker.getNonNullableType(sty), ts.IndexKind.String)) {
			const cur = this.hread(st.heap, "#rec", r), nv = this.hread(st.heap, "#rec", from);
			if (cur.op !== "constarr" && cur !== T.constArr("(Array Str Val)", T.UNDEF)) throw new Unsupported("spread of a dictionary over other entries", n);
			this.hwrite(st, "#rec", r, T.ite(isObj, nv, cur), n);
		}
	}
	fieldAlwaysPresent(ty: ts.Type, f: string): boolean {
		const p = this.checker.getPropertyOfType(ty, f);
		return !!p && !(p.flags & ts.SymbolFlags.Optional);
	}
	spreadNames(ty: ts.Type): string[] | undefined {
		const nn = this.checker.getNonNullableType(ty);
		const parts = nn.isUnion() ? nn.types : [nn];
		const out = new Set<string>();
		for (const p of parts) {
			if (this.isUntrustedType(p)) return undefined;
			if (p.flags & (ts.TypeFlags.BooleanLike | ts.TypeFlags.Undefined | ts.TypeFlags.Null)) continue;
			for (const f of this.propNames(p)) out.add(f);
		}
		return [...out];
	}
	arrLit(n: ts.ArrayLiteralExpression, st: State, sc: Scope, ex: Exits): SV {
		if (this.inModuleInit) {
			const el: Term[] = [];
			for (const e of n.elements) {
				if (ts.isSpreadElement(e)) {
					const v = this.eval(e.expression, st, sc, ex);
					if (v.k === "ref") {
						const l = this.hread(st.heap, "#len", v.t);
						if (l.op === "int") { const a = this.hread(st.heap, "#el", v.t); for (let i = 0; i < Number(l.name); i++) el.push(T.select(a, T.int(i))); continue; }
						const c: any = this.constObjs.get(v.t.name!);
						if (c?.set) { el.push(...c.set); continue; }
					}
					throw new Unsupported("module array spread", n);
				}
				el.push(box(this.eval(e, st, sc, ex)));
			}
			return svRef(this.newConst(TAG.ARR, { len: T.int(el.length), el }));
		}
		const parts: ({ one: SV } | { seq: Seq })[] = [];
		for (const e of n.elements) {
			if (ts.isSpreadElement(e)) {
				const v = this.eval(e.expression, st, sc, ex);
				if (st.dead) return UNDEF;
				parts.push({ seq: this.seqOf(v, this.typeOf(e.expression), st, ex, e) });
			} else parts.push({ one: this.eval(e, st, sc, ex) });
			if (st.dead) return UNDEF;
		}
		return this.buildArray(parts, st, n);
	}
	buildArray(parts: ({ one: SV } | { seq: Seq })[], st: State, n: ts.Node): SV {
		const r = this.alloc(TAG.ARR);
		let len: Term = T.int(0);
		let el = T.constArr("(Array Int Val)", T.UNDEF);
		for (const p of parts) {
			if ("one" in p) { el = T.store(el, len, box(p.one)); len = T.add(len, T.int(1)); continue; }
			const s = p.seq;
			if (s.len.op === "int") {
				for (let i = 0; i < Number(s.len.name); i++) { el = T.store(el, len, box(s.get(T.int(i), st))); len = T.add(len, T.int(1)); }
				continue;
			}
			const e2 = this.fresh("cat", "(Array Int Val)");
			const off = len, prev = el;
			this.withBound(["Int"], () => T.TRUE, ([i]) => {
				const inOld = T.and(T.le(T.int(0), i), T.lt(i, off));
				if (off !== T.int(0)) this.addFact(T.implies(inOld, T.eq(T.select(e2, i), T.select(prev, i))));
			});
			this.withBound(["Int"], ([i]) => T.and(T.le(T.int(0), i), T.lt(i, s.len)), ([i]) => {
				const src = box(s.get(i, st));
				this.addFact(T.eq(T.select(e2, T.add(i, off)), src));
			});
			if (off !== T.int(0)) this.withBound(["Int"], ([i]) => T.and(T.le(off, i), T.lt(i, T.add(off, s.len))), ([i]) => {
				this.addFact(T.eq(T.select(e2, i), box(s.get(T.sub(i, off), st))));
			});
			el = e2;
			len = T.add(len, s.len);
		}
		this.hwrite(st, "#len", r, len, n);
		this.hwrite(st, "#el", r, el, n);
		return svRef(r);
	}
	restArrays = new Set<number>();
	/** a sequence view of an iterable value at the current heap */
	seqOf(v: SV, ty: ts.Type, st: State, ex: Exits, n: ts.Node): Seq {
		const nn = this.checker.getNonNullableType(ty);
		const r = this.needRef(v, st, ex, n);
		const nm = nn.symbol?.name ?? "";
		if (this.iterSeqs.has(r.id)) return this.iterSeqs.get(r.id)!;
		const c: any = r.op === "int" ? this.constObjs.get(r.name!) : undefined;
		if (this.isArrayish(nn) || (c && c.el) || this.restArrays.has(r.id)) {
			const len = this.lenOf(st, r);
			const ety = this.elemType(nn);
			const rawf = (v as any).raw;
			const h = st.heap.clone();
			return { len, ref: r, get: (i, s) => { const t = this.sel(this.hread(h, "#el", r), i); return rawf || !ety ? svVal(t, true) : this.typed(t, ety, s, T.TRUE); }, ety };
		}
		if (/^(Readonly)?Set$/.test(nm)) {
			const targ = (this.checker.getTypeArguments(nn as ts.TypeReference) ?? [])[0];
			return this.keySeq(r, st, targ);
		}
		if (/^(Readonly)?Map$/.test(nm)) {
			const [kt, vt] = this.checker.getTypeArguments(nn as ts.TypeReference);
			const ks = this.keySeq(r, st, kt);
			const h = st.heap.clone();
			return { len: ks.len, get: (i, s) => {
				const k = ks.get(i, s);
				const val = this.sel(this.hread(h, "#mget", r), box(k));
				const pr = this.alloc(TAG.ARR);
				const a = T.store(T.store(T.constArr("(Array Int Val)", T.UNDEF), T.int(0), box(k)), T.int(1), val);
				this.hwrite(s, "#el", pr, a, n); this.hwrite(s, "#len", pr, T.int(2), n);
				return svRef(pr);
			}, pairs: { key: ks, val: (i, s) => this.typed(this.sel(this.hread(h, "#mget", r), box(ks.get(i, s))), vt, s) } };
		}
		if ((v as any).seq) return (v as any).seq;
		throw new Unsupported(`iterating ${nm || "unknown"}`, n);
	}
	iterSeqs = new Map<number, Seq>();
	keySeq(r: Term, st: State, kt: ts.Type | undefined): Seq {
		const c: any = r.op === "int" ? this.constObjs.get(r.name!) : undefined;
		if (c?.set) return { len: T.int(c.set.length), get: (i, s) => svVal(T.select(this.listArr(c.set), i)), ety: kt };
		if (c?.map) return { len: T.int(c.map.length), get: (i, s) => svVal(T.select(this.listArr(c.map.map((x: any) => x[0])), i)), ety: kt };
		const has = this.hread(st.heap, "#mhas", r);
		const len = this.hread(st.heap, "#msize", r);
		if (len.op !== "int") this.addFact(T.le(T.int(0), len));
		const ks = this.fresh("keys", "(Array Int Val)");
		const idxName = T.freshName("kidx");
		const bt = this.boundTerms();
		const idx = (k: Term) => T.app(idxName, [...bt, k], "Int");
		this.withBound(["Int"], ([i]) => T.and(T.le(T.int(0), i), T.lt(i, len)), ([i]) => {
			const k = T.select(ks, i);
			this.addFact(T.implies(T.and(T.le(T.int(0), i), T.lt(i, len)), T.and(T.select(has, k), T.eq(idx(k), i))));
		});
		this.withBound(["Val"], ([k]) => T.select(has, k), ([k]) => {
			this.addFact(T.implies(T.select(has, k), T.and(T.le(T.int(0), idx(k)), T.lt(idx(k), len), T.eq(T.select(ks, idx(k)), k))));
		});
		return { len, get: (i, s) => this.typed(T.select(ks, i), kt, s), ety: kt };
	}
	/** own keys of a dictionary in enumeration order: a fixed function of the object and its contents */
	recKeys(r: Term, st: State, n: ts.Node): Seq {
		if (r.op === "int") { const c: any = this.constObjs.get(r.name!); if (c && !c.el && !c.set && !c.map) { const ks = [...c.fields.keys()]; return { len: T.int(ks.length), get: (i) => svStr(i.op === "int" ? T.strLit(ks[Number(i.name)]) : T.sel("sv", T.select(this.listArr(ks.map((k: string) => T.ctor("S", T.strLit(k)))), i))) }; } }
		const rec = this.hread(st.heap, "#rec", r);
		if (rec === T.constArr("(Array Str Val)", T.UNDEF)) return { len: T.int(0), get: () => svStrLit("") };
		this.assumptions.add("dictionaries: no own property holds undefined; enumeration order is a fixed function of the object and its contents");
		const at = (i: Term) => T.app("rk_at", [r, rec, i], "Str"), len = T.app("rk_len", [r, rec], "Int"), idx = (k: Term) => T.app("rk_idx", [r, rec, k], "Int");
		this.addFact(T.le(T.int(0), len));
		this.withBound(["Int"], ([i]) => T.and(T.le(T.int(0), i), T.lt(i, len)), ([i]) => { this.addFact(T.implies(T.and(T.le(T.int(0), i), T.lt(i, len)), T.and(T.not(T.is("Undef", T.select(rec, at(i)))), T.eq(idx(at(i)), i)))); });
		this.withBound(["Str"], ([k]) => T.not(T.is("Undef", T.select(rec, k))), ([k]) => { this.addFact(T.implies(T.not(T.is("Undef", T.select(rec, k))), T.and(T.le(T.int(0), idx(k)), T.lt(idx(k), len), T.eq(at(idx(k)), k)))); });
		return { len, get: (i) => svStr(at(i)) };
	}
	isRecord(ty: ts.Type): boolean { const nn = this.checker.getNonNullableType(ty); return !this.isUntrustedType(nn) && !this.isArrayish(nn) && !!this.checker.getIndexTypeOfType(nn, ts.IndexKind.String); }
	recVal(r: Term, k: Term, ty: ts.Type, st: State): SV {
		const h = this.hread(st.heap, "#rec", r);
		return this.typed(this.sel(h, k), this.checker.getIndexTypeOfType(this.checker.getNonNullableType(ty), ts.IndexKind.String), st, T.not(T.is("Undef", this.sel(h, k))));
	}
	listArr(xs: Term[]): Term { let a = T.constArr("(Array Int Val)", T.UNDEF); xs.forEach((x, i) => { a = T.store(a, T.int(i), x); }); return a; }
	// ---------- calls
	call(n: ts.CallExpression, st: State, sc: Scope, ex: Exits): SV {
		const callee = n.expression;
		if (callee.kind === ts.SyntaxKind.SuperKeyword) { n.arguments.forEach((a) => this.eval(a, st, sc, ex)); return UNDEF; }
		if (ts.isPropertyAccessExpression(callee)) {
			const s = this.staticMember(callee, st, sc, ex);
			if (s && s.k === "fn") {
				const args = this.evalArgs(n, st, sc, ex);
				if (st.dead) return UNDEF;
				return this.callFn(s.f, args, st, ex, n);
			}
			const o = s ?? this.eval(callee.expression, st, sc, ex);
			if (st.dead) return UNDEF;
			const go = (s2: State): SV => this.callMethod(o, callee, n, s2, sc, ex);
			if (callee.questionDotToken) return this.branch(st, nullish(o), () => UNDEF, go);
			if (this.isOptChain(callee) && (o.k === "val" || o.k === "undef")) return this.branch(st, T.is("Undef", box(o)), () => UNDEF, go);
			return go(st);
		}
		const f = this.eval(callee, st, sc, ex);
		if (st.dead) return UNDEF;
		if (n.questionDotToken) return this.branch(st, nullish(f), () => UNDEF, (s) => { const args = this.evalArgs(n, s, sc, ex); return s.dead ? UNDEF : this.callVal(f, args, s, ex, n, callee); });
		const args = this.evalArgs(n, st, sc, ex);
		if (st.dead) return UNDEF;
		return this.callVal(f, args, st, ex, n, callee);
	}
	evalArgs(n: ts.CallExpression | ts.NewExpression, st: State, sc: Scope, ex: Exits): SV[] {
		const out: SV[] = [];
		for (const a of n.arguments ?? []) {
			if (ts.isSpreadElement(a)) {
				const v = this.eval(a.expression, st, sc, ex);
				const s = this.seqOf(v, this.typeOf(a.expression), st, ex, a);
				if (s.len.op === "int") { for (let i = 0; i < Number(s.len.name); i++) out.push(s.get(T.int(i), st)); continue; }
				(out as any).spread = { at: out.length, seq: s };
				if (a !== n.arguments![n.arguments!.length - 1]) throw new Unsupported("spread argument not last", a);
				continue;
			}
			out.push(this.slot(this.eval(a, st, sc, ex), a));
			if (st.dead) return out;
		}
		return out;
	}
	/** an index read that may be absent loses its static type when it flows into a slot of the element type */
	slot(v: SV, a: ts.Expression): SV {
		if (v.k !== "val" || v.raw) return v;
		const c = this.checker.getContextualType(a);
		if (!c || this.isUntrustedType(c) || c.flags & ts.TypeFlags.TypeParameter) return v;
		const from = this.typeOf(a);
		if (this.checker.isTypeAssignableTo(from, c)) return v;
		const hasU = from.isUnion() && from.types.some((t) => t.flags & ts.TypeFlags.Undefined);
		return hasU ? { ...v, raw: true } : v;
	}
	callVal(f: SV, args: SV[], st: State, ex: Exits, n: ts.CallExpression, callee: ts.Expression): SV {
		if (f.k === "fn") return this.callFn(f.f, args, st, ex, n);
		if (f.k === "val") {
			if (f.t.op === "ite") return this.branch(st, f.t.args[0], (s) => this.callVal(svVal((f.t as Term).args[1]), args, s, ex, n, callee), (s) => this.callVal(svVal((f.t as Term).args[2]), args, s, ex, n, callee));
			this.throwIf(st, ex, T.not(T.is("F", f.t)), "TypeError", n);
			if (st.dead) return UNDEF;
			return this.unknownCall(this.calleeName(callee), args, st, ex, n, f);
		}
		if (f.k === "undef" || f.k === "null") { this.throwIf(st, ex, T.TRUE, "TypeError", n); return UNDEF; }
		throw new Unsupported("call of non-function", n);
	}
	calleeName(e: ts.Expression): string {
		if (ts.isIdentifier(e)) return e.text;
		if (ts.isPropertyAccessExpression(e)) return e.name.text;
		return "<fn>";
	}
	callFn(f: FnVal, args: SV[], st: State, ex: Exits, n: ts.Node): SV {
		if (f.builtin) return f.builtin(args, st, ex, n);
		if (f.decl && ts.isArrowFunction(f.decl) && ts.isVariableDeclaration(f.decl.parent) && f.decl.getSourceFile().fileName.endsWith("/verif/engine/spec.ts")) {
			const g = callGlobal(this, f.decl.parent.name.getText(), args, st, ex, n as ts.CallExpression);
			if (g) return g;
		}
		const ext = this.extFor(f);
		if (ext) return this.extCall(ext.name, ext.m, args, st, ex, n);
		if (f.decl && this.modularFor(f.decl)) return this.modularCall(f, args, st, ex, n);
		if (f.decl && (f.decl as any).body) return this.inlineCall(f, args, st, ex, n);
		const g = callGlobal(this, f.name, args, st, ex, n as ts.CallExpression);
		if (g) return g;
		return this.unknownCall(f.name, args, st, ex, n);
	}
	modularFor(d: ts.Node): any { return this.specMode && !this.modular.get("!spec") ? undefined : undefined; }
	modularCall(f: FnVal, args: SV[], st: State, ex: Exits, n: ts.Node): SV { throw new Unsupported("modular", n); }
	extFor(f: FnVal): { name: string; m: ExtModel } | undefined {
		if (this.ext.size === 0) return undefined;
		const names = [f.name];
		if (f.decl && f.decl.parent && ts.isClassLike(f.decl.parent) && f.decl.parent.name) names.unshift(`${f.decl.parent.name.text}.${f.name}`);
		for (const nm of names) { const m = this.ext.get(nm); if (m) return { name: nm, m }; }
		return undefined;
	}
	unknownCall(name: string, args: SV[], st: State, ex: Exits, n: ts.Node, fv?: SV): SV {
		// ".name" models only function values of unknown origin, never a function of the program with that name
		const m = this.ext.get(name) ?? this.ext.get(`.${name}`);
		if (m) return this.extCall(name, m, args, st, ex, n, fv);
		const g = callGlobal(this, name, args, st, ex, n as ts.CallExpression);
		if (g) return g;
		throw new Unsupported(`call to unmodelled function ${name}`, n);
	}
	extCall(name: string, m: ExtModel, args: SV[], st: State, ex: Exits, n: ts.Node, fv?: SV): SV {
		this.assumptions.add(`external '${name}' modelled as ${m.kind}${m.throws ? " (may throw)" : ""}${m.modifies ? " (may change the heap)" : ""}`);
		if (m.effect) {
			const g = `ghost:${m.effect}`;
			const cnt = this.hread(st.heap, g, T.int(1));
			this.hwrite(st, g, T.int(1), T.ctor("NI", T.add(T.ite(T.is("NI", cnt), T.sel("ni", cnt), T.int(0)), T.int(1))), n);
		}
		if (m.kind === "skip") return UNDEF;
		if (m.kind === "ident") return args[0] ?? UNDEF;
		let retTy: ts.Type | undefined;
		const sig = ts.isCallExpression(n) || ts.isNewExpression(n) ? this.checker.getResolvedSignature(n) : undefined;
		if (sig) {
			retTy = this.checker.getReturnTypeOfSignature(sig);
			retTy = this.checker.getAwaitedType?.(retTy) ?? retTy;
		}
		if (m.kind === "pure") {
			const use = args.slice(0, m.args ?? args.length);
			const ts_: Term[] = use.flatMap((a, i) => {
				const decl = sig?.parameters[i]?.valueDeclaration;
				const ty = decl && this.checker.getTypeAtLocation(decl);
				if (!m.fields || a.k !== "ref" || !ty || !this.checker.getPropertiesOfType(ty).length || this.checker.isArrayType(ty)) return [box(a)];
				return this.checker.getPropertiesOfType(ty).map((p) => p.name).filter((p) => m.fields === true || (m.fields as string[]).includes(p)).sort().map((p) => this.hread(st.heap, p, a.t));
			});
			while (m.args !== undefined && ts_.length < m.args) ts_.push(T.UNDEF);
			if (fv && !m.static) ts_.unshift(box(fv));
			const key = `ext_${m.as ?? name}/${ts_.length}`;
			if (m.throws) this.throwIf(st, ex, T.app(`${key}_throws`, ts_, "Bool"), "Error", n);
			if (st.dead) return UNDEF;
			const t = T.app(key, ts_, "Val");
			this.addFact(T.implies(T.is("R", t), T.and(T.lt(T.sel("rv", t), T.konst("A!0", "Int")), T.not(T.eq(T.sel("rv", t), T.int(0))))));
			this.oldRefs.set(T.sel("rv", t).id, { base: T.konst("A!0", "Int"), n: 0 });
			if (retTy && retTy.flags & ts.TypeFlags.Void) return UNDEF;
			const rv = this.typed(t, retTy, st);
			this.assumeAxiom(m.as ?? name, rv, args, st);
			return rv;
		}
		// havoc
		if (m.modifies) this.havocHeap(st);
		if (m.throws) this.throwIf(st, ex, this.fresh(`${name}_throws`, "Bool"), "Error", n);
		if (st.dead) return UNDEF;
		if (retTy && retTy.flags & ts.TypeFlags.Void) return UNDEF;
		this.newBase();
		const t = this.fresh(`ret_${name}`, "Val");
		this.addFact(T.implies(T.is("R", t), T.and(T.lt(T.sel("rv", t), this.Anow), T.not(T.eq(T.sel("rv", t), T.int(0))))));
		const rv = this.typed(t, retTy, st);
		this.assumeAxiom(m.as ?? name, rv, args, st);
		return rv;
	}
	axioms = new Map<string, { fn: ts.ArrowFunction; scope: Scope }>();
	/** the assumed contract of an external function, at one call */
	assumeAxiom(name: string, rv: SV, args: SV[], st: State) {
		const ax = this.axioms.get(name);
		if (!ax) return;
		this.assumptions.add(`assumed contract of '${name}': ${ax.fn.getText().replace(/\s+/g, " ").slice(0, 400)}`);
		const s2 = st.fork();
		s2.writes = null;
		const base = s2.pc.length;
		this.specMode++;
		try {
			const ex = new Exits();
			const f = this.eval(ax.fn, s2, ax.scope, ex);
			if (f.k !== "fn") throw new Unsupported("axiom is not a function", ax.fn);
			const all = [rv, ...args].slice(0, f.f.decl!.parameters.length);
			const v = this.callFn(f.f, all, s2, ex, ax.fn);
			if (!s2.dead) { const extra = s2.pc.slice(base); st.assume(T.and(...extra, truthy(v))); }
		} finally { this.specMode--; }
	}
	callMethod(o: SV, callee: ts.PropertyAccessExpression, n: ts.CallExpression, st: State, sc: Scope, ex: Exits): SV {
		const name = callee.name.text;
		const oty = this.checker.getNonNullableType(this.typeOf(callee.expression));
		const sym = this.checker.getPropertyOfType(oty, name) ?? this.checker.getSymbolAtLocation(callee.name);
		let d = sym?.valueDeclaration;
		if (callee.expression.kind === ts.SyntaxKind.SuperKeyword) throw new Unsupported("super call", n);
		if (d && ts.isMethodDeclaration(d) && !d.body && sym) { const i = sym.declarations?.find((x) => ts.isMethodDeclaration(x) && (x as ts.MethodDeclaration).body); if (i) d = i as ts.MethodDeclaration; }
		if (d && ts.isMethodDeclaration(d) && d.body && ts.isClassLike(d.parent)) {
			const args = this.evalArgs(n, st, sc, ex);
			if (st.dead) return UNDEF;
			return this.callFn({ id: 0, decl: d, scope: new Scope(), thisV: o, name }, args, st, ex, n);
		}
		// builtin receiver?
		const b = callBuiltinMethod(this, o, oty, name, callee, n, st, sc, ex);
		if (b) return b;
		// function-valued property
		if (o.k === "ref" || o.k === "val") {
			const r = this.needRef(o, st, ex, n);
			if (st.dead) return UNDEF;
			// one of several objects: each may carry its own function
			if (r.op === "ite") return this.branch(st, r.args[0], (s) => this.callMethod(svRef(r.args[1]), callee, n, s, sc, ex), (s) => this.callMethod(svRef(r.args[2]), callee, n, s, sc, ex));
			const fv = svVal(this.hread(st.heap, name, r));
			const args = this.evalArgs(n, st, sc, ex);
			if (st.dead) return UNDEF;
			if (fv.k === "fn") return this.callFn(fv.f, args, st, ex, n);
			const pick = (t: Term, s: State): SV => {
				if (t.op === "ite") return this.branch(s, t.args[0], (q) => pick((t as Term).args[1], q), (q) => pick((t as Term).args[2], q));
				const v = svVal(t);
				return v.k === "fn" ? this.callFn(v.f, args, s, ex, n) : this.unknownCall(name, args, s, ex, n, v);
			};
			if (fv.k === "val" && fv.t.op === "ite" && !n.questionDotToken) return pick(fv.t, st);
			if (this.isOptChain(n) && n.questionDotToken) {
				return this.branch(st, nullish(fv), () => UNDEF, (s) => this.unknownCall(name, args, s, ex, n, fv));
			}
			return this.unknownCall(name, args, st, ex, n, fv);
		}
		throw new Unsupported(`method ${name} on ${o.k}`, n);
	}
	inlineCall(f: FnVal, args: SV[], st: State, ex: Exits, n: ts.Node): SV {
		const d = f.decl!;
		if (this.fnStack.filter((x) => x === d).length >= 1 && !this.specMode) throw new Unsupported(`recursion in ${f.name}`, n);
		if (this.fnStack.filter((x) => x === d).length >= 6) throw new Unsupported(`recursion in ${f.name}`, n);
		if (this.fnStack.length > this.maxDepth) throw new Unsupported("inline depth", n);
		if (d.asteriskToken) throw new Unsupported("generator", n);
		if (!this.specMode && d.getSourceFile().fileName.includes("/packages/")) this.inlined.add(`${where(d).split(":")[0]}#${f.name === "closure" ? "<closure>" : f.name}`);
		this.fnStack.push(d);
		try {
			const sc = new Scope(f.scope);
			if (f.thisV) sc.thisV = f.thisV;
			sc.fnDecl = d;
			const inner = new Exits();
			this.bindParams(d, args, st, sc, inner);
			let out: Out | undefined;
			if (!st.dead) {
				const body = (d as any).body as ts.Node;
				if (ts.isBlock(body)) {
					this.execBlock(body.statements, st, sc, inner);
					if (!st.dead) inner.returns.push({ st: st.fork(), v: UNDEF });
				} else {
					const v = this.eval(body as ts.Expression, st, sc, inner);
					if (!st.dead) inner.returns.push({ st: st.fork(), v });
				}
			}
			for (const t of inner.throws) ex.throws.push(t);
			out = this.merge(inner.returns);
			if (!out) { st.dead = true; return UNDEF; }
			st.set(out.st);
			let v = out.v;
			if (v.k === "val" && !v.raw && (ts.isCallExpression(n))) v = this.unbox(v, this.safeType(n));
			return v;
		} finally { this.fnStack.pop(); }
	}
	safeType(n: ts.Node): ts.Type | undefined {
		try { const t = this.typeOf(n); return t; } catch { return undefined; }
	}
	bindParams(d: ts.FunctionLikeDeclaration, args: SV[], st: State, sc: Scope, ex: Exits) {
		let i = 0;
		for (const p of d.parameters) {
			if (ts.isIdentifier(p.name) && p.name.text === "this") continue;
			if (p.dotDotDotToken) {
				const parts: any[] = args.slice(i).map((a) => ({ one: a }));
				const sp = (args as any).spread;
				if (sp) parts.push({ seq: sp.seq });
				const arr = this.buildArray(parts, st, p);
				this.restArrays.add(this.needRef(arr, st, ex, p).id);
				this.bindPattern(p.name, arr, st, sc, ex);
				return;
			}
			if ((args as any).spread && i >= args.length) throw new Unsupported("spread into positional parameter", p);
			let v = args[i++] ?? UNDEF;
			if (p.initializer) {
				const v0 = v;
				v = this.branch(st, T.is("Undef", box(v0)), (s) => this.eval(p.initializer!, s, sc, ex), () => v0);
			}
			this.bindPattern(p.name, v, st, sc, ex, this.safeType(p));
		}
	}
	newExpr(n: ts.NewExpression, st: State, sc: Scope, ex: Exits): SV {
		const name = n.expression.getText();
		if (name === "Set" || name === "Map") return this.newCollection(name, n, st, sc, ex);
		if (/^(Error|TypeError|RangeError|SyntaxError|AggregateError)$/.test(name)) {
			const args = this.evalArgs(n, st, sc, ex);
			const r = this.alloc(TAG.ERR);
			if (args[0] && !this.inModuleInit) this.hwrite(st, "message", r, box(this.toStr(args[0], st)), n);
			return svRef(r);
		}
		const s = this.symbolOf(n.expression);
		let d: ts.Node | undefined = s?.valueDeclaration;
		if (this.ext.has(name)) { const args = this.evalArgs(n, st, sc, ex); return this.extCall(name, this.ext.get(name)!, args, st, ex, n); }
		if (name === "Array") {
			const args = this.evalArgs(n, st, sc, ex);
			if (args.length === 0) return this.buildArray([], st, n);
			if (args.length === 1 && args[0].k === "int") {
				const r = this.alloc(TAG.ARR);
				this.hwrite(st, "#len", r, args[0].t, n);
				this.hwrite(st, "#el", r, T.constArr("(Array Int Val)", T.UNDEF), n);
				return svRef(r);
			}
		}
		if (d && ts.isClassDeclaration(d) && !d.getSourceFile().isDeclarationFile) {
			const args = this.evalArgs(n, st, sc, ex);
			if (st.dead) return UNDEF;
			return this.construct(d, args, st, ex, n);
		}
		throw new Unsupported(`new ${name}`, n);
	}
	construct(d: ts.ClassDeclaration, args: SV[], st: State, ex: Exits, n: ts.Node): SV {
		const r = this.alloc(this.isErrorClass(d) ? TAG.ERR : TAG.CLASS + this.classId(d));
		const self = svRef(r);
		const isc = new Scope();
		isc.thisV = self;
		this.addFact(T.app(`instanceof_${d.name?.text}`, [r], "Bool"));
		const heritage = d.heritageClauses?.find((h) => h.token === ts.SyntaxKind.ExtendsKeyword);
		if (heritage && !this.isErrorClass(d)) throw new Unsupported("class inheritance", n);
		for (const m of d.members) {
			if (ts.isPropertyDeclaration(m) && !m.modifiers?.some((x) => x.kind === ts.SyntaxKind.StaticKeyword)) {
				const nm = (m.name as ts.Identifier).text;
				const v = m.initializer ? this.eval(m.initializer, st, isc, ex) : UNDEF;
				this.hwrite(st, nm, r, box(v), n);
			}
		}
		const ctor = d.members.find((m) => ts.isConstructorDeclaration(m) && m.body) as ts.ConstructorDeclaration | undefined;
		if (ctor) this.inlineCall({ id: 0, decl: ctor as any, scope: new Scope(), thisV: self, name: "constructor" }, args, st, ex, n);
		else if (this.isErrorClass(d) && args[0]) this.hwrite(st, "message", r, box(args[0]), n);
		return self;
	}
	classIds = new Map<ts.Node, number>();
	classId(d: ts.Node): number { let i = this.classIds.get(d); if (!i) { i = this.classIds.size + 1; this.classIds.set(d, i); } return i; }
	isErrorClass(d: ts.ClassDeclaration): boolean {
		const h = d.heritageClauses?.find((x) => x.token === ts.SyntaxKind.ExtendsKeyword);
		return !!h && /Error$/.test(h.types[0].expression.getText());
	}
	newCollection(name: string, n: ts.NewExpression, st: State, sc: Scope, ex: Exits): SV {
		const args = this.evalArgs(n, st, sc, ex);
		if (st.dead) return UNDEF;
		const isSet = name === "Set";
		let seq: Seq | undefined;
		if (args[0] && args[0].k !== "undef") seq = this.seqOf(args[0], this.typeOf(n.arguments![0]), st, ex, n);
		if (this.inModuleInit) {
			const items: Term[] = [];
			if (seq) { if (seq.len.op !== "int") throw new Unsupported("module collection", n); for (let i = 0; i < Number(seq.len.name); i++) items.push(box(seq.get(T.int(i), st))); }
			if (isSet) { const u: Term[] = []; for (const x of items) if (!u.includes(x)) u.push(x); return svRef(this.newConst(TAG.SET, { set: u })); }
			const map: [Term, Term][] = items.map((it) => {
				const a = this.hread(st.heap, "#el", T.sel("rv", it));
				return [T.select(a, T.int(0)), T.select(a, T.int(1))];
			});
			return svRef(this.newConst(TAG.MAP, { map }));
		}
		const r = this.alloc(isSet ? TAG.SET : TAG.MAP);
		let has = T.constArr("(Array Val Bool)", T.FALSE);
		let get = T.constArr("(Array Val Val)", T.UNDEF);
		let size: Term = T.int(0);
		if (seq) {
			if (seq.len.op === "int") {
				for (let i = 0; i < Number(seq.len.name); i++) {
					const it = seq.get(T.int(i), st);
					let k: Term, v: Term = T.UNDEF;
					if (isSet) k = box(it);
					else { const a = this.hread(st.heap, "#el", this.needRef(it, st, ex, n)); k = this.sel(a, T.int(0)); v = this.sel(a, T.int(1)); }
					size = T.ite(T.select(has, k), size, T.add(size, T.int(1)));
					has = T.store(has, k, T.TRUE);
					get = T.store(get, k, v);
				}
			} else if (isSet) {
				const s = seq;
				has = this.fresh("sethas", "(Array Val Bool)");
				size = this.fresh("setsize", "Int");
				this.addFact(T.and(T.le(T.int(0), size), T.le(size, s.len), T.implies(T.lt(T.int(0), s.len), T.lt(T.int(0), size))));
				this.withBound(["Int"], ([i]) => T.and(T.le(T.int(0), i), T.lt(i, s.len)), ([i]) => { this.addFact(T.select(has, box(s.get(i, st)))); });
				const idxN = T.freshName("sidx");
				const bt = this.boundTerms();
				this.withBound(["Val"], ([k]) => T.select(has, k), ([k]) => {
					const ix = T.app(idxN, [...bt, k], "Int");
					this.addFact(T.and(T.le(T.int(0), ix), T.lt(ix, s.len)));
					// value equality at that index
					const bx = this.rawEl(s, ix, st);
					this.addFact(T.eq(bx, k));
				});
				// size equals length exactly when all elements are pairwise distinct (both directions used by uniqueness checks)
				const dupi = this.fresh("dupi", "Int"), dupj = this.fresh("dupj", "Int");
				this.addFact(T.implies(T.lt(size, s.len), T.and(T.le(T.int(0), dupi), T.lt(dupi, dupj), T.lt(dupj, s.len), T.eq(this.rawEl(s, dupi, st), this.rawEl(s, dupj, st)))));
				this.withBound(["Int", "Int"], ([i, j]) => T.and(T.le(T.int(0), i), T.lt(i, j), T.lt(j, s.len), T.eq(size, s.len)), ([i, j]) => {
					this.addFact(T.not(T.eq(this.rawEl(s, i, st), this.rawEl(s, j, st))));
				});
			} else {
				// Map built from a symbolic sequence of pairs: last pair with a key wins
				const s = seq;
				has = this.fresh("maphas", "(Array Val Bool)");
				get = this.fresh("mapget", "(Array Val Val)");
				size = this.fresh("mapsize", "Int");
				this.addFact(T.and(T.le(T.int(0), size), T.le(size, s.len)));
				const pair = (i: Term) => {
					const p = this.rawEl(s, i, st);
					const a = this.hread(st.heap, "#el", T.sel("rv", p));
					return [T.select(a, T.int(0)), T.select(a, T.int(1))];
				};
				this.withBound(["Int"], ([i]) => T.and(T.le(T.int(0), i), T.lt(i, s.len)), ([i]) => { this.addFact(T.select(has, pair(i)[0])); });
				const idxN = T.freshName("midx");
				const bt = this.boundTerms();
				this.withBound(["Val"], ([k]) => T.select(has, k), ([k]) => {
					const ix = T.app(idxN, [...bt, k], "Int");
					const [pk, pv] = pair(ix);
					this.addFact(T.and(T.le(T.int(0), ix), T.lt(ix, s.len), T.eq(pk, k), T.eq(T.select(get, k), pv)));
					this.withBound(["Int"], ([j]) => T.and(T.lt(ix, j), T.lt(j, s.len)), ([j]) => { this.addFact(T.not(T.eq(pair(j)[0], k))); });
				});
			}
		}
		this.hwrite(st, "#mhas", r, has, n);
		this.hwrite(st, "#mget", r, get, n);
		this.hwrite(st, "#msize", r, size, n);
		return svRef(r);
	}
	rawEl(s: Seq, i: Term, st: State): Term { return box(s.get(i, st)); }
	// ---------- statements
	execBlock(stmts: readonly ts.Statement[], st: State, sc: Scope, ex: Exits) {
		for (const s of stmts) if (ts.isFunctionDeclaration(s) && s.body && s.name) {
			const sym = this.checker.getSymbolAtLocation(s.name)!;
			const c = new Cell(s.name.text);
			sc.vars.set(sym, c);
			st.cells.set(c, mkFn({ decl: s, scope: sc, thisV: undefined, name: s.name.text }));
		}
		for (const s of stmts) {
			if (st.dead) return;
			this.exec(s, st, sc, ex);
		}
	}
	exec(n: ts.Statement, st: State, sc: Scope, ex: Exits): void {
		const SK = ts.SyntaxKind;
		if (st.dead) return;
		switch (n.kind) {
			case SK.Block: this.execBlock((n as ts.Block).statements, st, new Scope(sc), ex); return;
			case SK.EmptyStatement: case SK.FunctionDeclaration: case SK.TypeAliasDeclaration: case SK.InterfaceDeclaration: return;
			case SK.ExpressionStatement: this.eval((n as ts.ExpressionStatement).expression, st, sc, ex); return;
			case SK.VariableStatement: this.varDecls((n as ts.VariableStatement).declarationList, st, sc, ex); return;
			case SK.ReturnStatement: {
				const e = (n as ts.ReturnStatement).expression;
				const v = e ? this.slot(this.eval(e, st, sc, ex), e) : UNDEF;
				if (!st.dead) { ex.returns.push({ st: st.fork(), v, node: n }); st.dead = true; }
				return;
			}
			case SK.ThrowStatement: {
				const v = this.eval((n as ts.ThrowStatement).expression, st, sc, ex);
				if (!st.dead) { ex.throws.push({ st: st.fork(), v, node: n }); st.dead = true; }
				return;
			}
			case SK.IfStatement: {
				const s = n as ts.IfStatement;
				const c = this.cond(s.expression, st, sc, ex);
				if (st.dead) return;
				if (c === T.TRUE) { this.exec(s.thenStatement, st, new Scope(sc), ex); return; }
				if (c === T.FALSE) { if (s.elseStatement) this.exec(s.elseStatement, st, new Scope(sc), ex); return; }
				const s1 = st.fork(c), s2 = st.fork(T.not(c));
				if (!s1.dead) this.exec(s.thenStatement, s1, new Scope(sc), ex);
				if (!s2.dead && s.elseStatement) this.exec(s.elseStatement, s2, new Scope(sc), ex);
				const m = this.merge([{ st: s1, v: UNDEF }, { st: s2, v: UNDEF }]);
				if (!m) { st.dead = true; return; }
				st.set(m.st);
				return;
			}
			case SK.BreakStatement: ex.breaks.push({ st: st.fork(), v: UNDEF, label: (n as ts.BreakStatement).label?.text }); st.dead = true; return;
			case SK.ContinueStatement: ex.continues.push({ st: st.fork(), v: UNDEF, label: (n as ts.ContinueStatement).label?.text }); st.dead = true; return;
			case SK.SwitchStatement: this.switchStmt(n as ts.SwitchStatement, st, sc, ex); return;
			case SK.TryStatement: this.tryStmt(n as ts.TryStatement, st, sc, ex); return;
			case SK.ForInStatement: this.forIn(n as ts.ForInStatement, st, sc, ex); return;
			case SK.ForOfStatement: this.forOf(n as ts.ForOfStatement, st, sc, ex); return;
			case SK.ForStatement: this.forStmt(n as ts.ForStatement, st, sc, ex); return;
			case SK.WhileStatement: this.whileStmt(n as ts.WhileStatement, st, sc, ex); return;
			case SK.LabeledStatement: {
				const l = n as ts.LabeledStatement;
				const inner = new Exits();
				this.exec(l.statement, st, sc, inner);
				ex.returns.push(...inner.returns); ex.throws.push(...inner.throws); ex.continues.push(...inner.continues);
				const mine = inner.breaks.filter((b) => b.label === l.label.text);
				ex.breaks.push(...inner.breaks.filter((b) => b.label !== l.label.text));
				const m = this.merge([...(st.dead ? [] : [{ st: st.fork(), v: UNDEF as SV }]), ...mine]);
				if (!m) { st.dead = true; return; }
				st.set(m.st);
				return;
			}
		}
		throw new Unsupported(`statement ${SK[n.kind]}`, n);
	}
	varDecls(l: ts.VariableDeclarationList, st: State, sc: Scope, ex: Exits) {
		for (const d of l.declarations) {
			const v0 = d.initializer ? this.eval(d.initializer, st, sc, ex) : UNDEF;
			const v = d.initializer && d.type && !st.dead ? this.slot(v0, d.initializer) : v0;
			if (st.dead) return;
			this.bindPattern(d.name, v, st, sc, ex, this.safeType(d.name));
		}
	}
	switchStmt(n: ts.SwitchStatement, st: State, sc: Scope, ex: Exits) {
		const v = this.eval(n.expression, st, sc, ex);
		if (st.dead) return;
		const bsc = new Scope(sc);
		const inner = new Exits();
		const clauses = n.caseBlock.clauses;
		// conditions of entering each clause directly
		let remaining = st.fork();
		const entries: { idx: number; st: State }[] = [];
		let def = -1;
		clauses.forEach((c, i) => {
			if (ts.isDefaultClause(c)) { def = i; return; }
			if (remaining.dead) return;
			const cv = this.eval(c.expression, remaining, bsc, inner);
			const e = strictEq(v, cv);
			const s = remaining.fork(e);
			if (!s.dead && e !== T.FALSE) entries.push({ idx: i, st: s });
			remaining.assume(T.not(e));
		});
		const after: Out[] = [];
		if (!remaining.dead) { if (def >= 0) entries.push({ idx: def, st: remaining }); else after.push({ st: remaining, v: UNDEF }); }
		entries.sort((a, b) => a.idx - b.idx);
		let cur: State | undefined;
		for (let i = 0; i < clauses.length; i++) {
			const ent = entries.filter((e) => e.idx === i).map((e) => ({ st: e.st, v: UNDEF as SV }));
			const m = this.merge([...(cur && !cur.dead ? [{ st: cur, v: UNDEF as SV }] : []), ...ent]);
			if (!m) { cur = undefined; continue; }
			cur = m.st;
			this.execBlock(clauses[i].statements, cur, bsc, inner);
		}
		if (cur && !cur.dead) after.push({ st: cur, v: UNDEF });
		ex.returns.push(...inner.returns); ex.throws.push(...inner.throws); ex.continues.push(...inner.continues);
		ex.breaks.push(...inner.breaks.filter((b) => b.label));
		after.push(...inner.breaks.filter((b) => !b.label));
		const m = this.merge(after);
		if (!m) { st.dead = true; return; }
		st.set(m.st);
	}
	tryStmt(n: ts.TryStatement, st: State, sc: Scope, ex: Exits) {
		const inner = new Exits();
		const after: Out[] = [];
		this.execBlock(n.tryBlock.statements, st, new Scope(sc), inner);
		if (!st.dead) after.push({ st: st.fork(), v: UNDEF });
		const out = new Exits();
		out.returns.push(...inner.returns); out.breaks.push(...inner.breaks); out.continues.push(...inner.continues);
		if (n.catchClause) {
			const m = this.merge(inner.throws);
			if (m) {
				const cs = new Scope(sc);
				if (n.catchClause.variableDeclaration) {
					const ev = m.v.k === "val" || m.v.k === "ref" ? { ...m.v, raw: true } as SV : m.v;
					this.bindPattern(n.catchClause.variableDeclaration.name, ev, m.st, cs, out);
				}
				this.execBlock(n.catchClause.block.statements, m.st, cs, out);
				if (!m.st.dead) after.push({ st: m.st, v: UNDEF });
			}
		} else out.throws.push(...inner.throws);
		if (n.finallyBlock) {
			const runF = (o: Out): Out | undefined => {
				const s = o.st.fork();
				this.execBlock(n.finallyBlock!.statements, s, new Scope(sc), ex);
				return s.dead ? undefined : { ...o, st: s };
			};
			const all = (xs: Out[]) => xs.map(runF).filter((x): x is Out => !!x);
			out.returns = all(out.returns); out.throws = all(out.throws); out.breaks = all(out.breaks); out.continues = all(out.continues);
			const a2 = all(after);
			after.length = 0; after.push(...a2);
		}
		ex.returns.push(...out.returns); ex.throws.push(...out.throws); ex.breaks.push(...out.breaks); ex.continues.push(...out.continues);
		const m = this.merge(after);
		if (!m) { st.dead = true; return; }
		st.set(m.st);
	}
	forOf(n: ts.ForOfStatement, st: State, sc: Scope, ex: Exits) {
		const v = this.eval(n.expression, st, sc, ex);
		if (st.dead) return;
		const seq = this.seqOf(v, this.typeOf(n.expression), st, ex, n);
		if (st.dead) return;
		this.loopOver(n, seq, st, sc, ex, (elem, s, bsc, inner) => {
			if (ts.isVariableDeclarationList(n.initializer)) this.bindPattern(n.initializer.declarations[0].name, elem, s, bsc, inner, this.safeType(n.initializer.declarations[0].name));
			else this.assignTo(n.initializer, elem, s, bsc, inner);
			if (!s.dead) this.exec(n.statement, s, new Scope(bsc), inner);
		});
	}
	forIn(n: ts.ForInStatement, st: State, sc: Scope, ex: Exits) {
		const v = this.eval(n.expression, st, sc, ex);
		if (st.dead) return;
		const ty = this.typeOf(n.expression);
		if (!this.isRecord(ty)) throw new Unsupported("for-in over a non-dictionary", n);
		const r = this.needRef(v, st, ex, n);
		if (st.dead) return;
		const seq = this.recKeys(r, st, n);
		this.loopOver(n, seq, st, sc, ex, (elem, s, bsc, inner) => {
			if (ts.isVariableDeclarationList(n.initializer)) this.bindPattern(n.initializer.declarations[0].name, elem, s, bsc, inner);
			else this.assignTo(n.initializer, elem, s, bsc, inner);
			if (!s.dead) this.exec(n.statement, s, new Scope(bsc), inner);
		});
	}
	declare loopOver: (n: ts.Node, seq: Seq, st: State, sc: Scope, ex: Exits, body: (elem: SV, s: State, bsc: Scope, inner: Exits) => void) => void;
	declare forStmt: (n: ts.ForStatement, st: State, sc: Scope, ex: Exits) => void;
	declare whileStmt: (n: ts.WhileStatement, st: State, sc: Scope, ex: Exits) => void;
}
export interface Seq { len: Term; get: (i: Term, st: State) => SV; ref?: Term; ety?: ts.Type; pairs?: any; lo?: Term; rev?: boolean }
let nextSite = 1;
export function numLit(x: number): SV {
	if (Number.isInteger(x)) return svInt(T.int(BigInt(x)));
	if (Number.isNaN(x)) return { k: "val", t: T.NAN };
	if (x === Infinity) return { k: "val", t: T.PINF };
	if (x === -Infinity) return { k: "val", t: T.NINF };
	return { k: "real", t: T.real(x) };
}
function hasConstLeaf(t: Term): boolean {
	if (t.op === "int") return true;
	if (t.op === "ite") return hasConstLeaf(t.args[1]) || hasConstLeaf(t.args[2]);
	return false;
}
