// Loop rules: complete unrolling, exact summarisation of search loops, invariants.
import ts from "./tsapi.ts";
import * as T from "./term.ts";
import type { Term } from "./term.ts";
import { Engine, TAG, numLit } from "./exec.ts";
import type { Seq } from "./exec.ts";
import { Unsupported, where, UNDEF, svBool, svInt, svVal, box, truthy, Cell, Scope, State, Exits, Heap, pcT, mkFn, nlt, nle } from "./sym.ts";
import type { SV, Out } from "./sym.ts";
import { partialSum } from "./builtins.ts";

export function substSV(v: SV, m: Map<string, Term>, memo: Map<number, Term>): SV {
	switch (v.k) {
		case "undef": case "null": case "fn": return v;
		case "val": { const t = T.subst(v.t, m, memo); return t === v.t ? v : { ...(svVal(t, v.raw) as any) }; }
		default: { const t = T.subst(v.t, m, memo); return t === v.t ? v : ({ ...v, t } as SV); }
	}
}
function substHeap(h: Heap, m: Map<string, Term>, memo: Map<number, Term>): Heap {
	const n = new Heap(h.epoch.kind === "merge" ? { kind: "merge", c: T.subst(h.epoch.c, m, memo), a: substHeap(h.epoch.a, m, memo), b: substHeap(h.epoch.b, m, memo) } : h.epoch);
	for (const [k, v] of h.m) n.m.set(k, T.subst(v, m, memo));
	return n;
}
export function substState(s: State, m: Map<string, Term>): State {
	const memo = new Map<number, Term>();
	const r = new State(substHeap(s.heap, m, memo));
	r.pc = [];
	for (const p of s.pc) { const x = T.subst(p, m, memo); if (x === T.FALSE) r.dead = true; if (x !== T.TRUE) r.pc.push(x); }
	for (const [c, v] of s.cells) r.cells.set(c, substSV(v, m, memo));
	r.dead = r.dead || s.dead;
	r.writes = s.writes;
	return r;
}
export function sameSV(a: SV, b: SV): boolean {
	if (a === b) return true;
	if (a.k !== b.k) return box(a) === box(b);
	if (a.k === "fn") return a.f.id === (b as any).f.id;
	return (a as any).t === (b as any).t;
}
type Body = (elem: SV, s: State, bsc: Scope, inner: Exits) => void;

Engine.prototype.loopOver = function (this: Engine, n: ts.Node, seq: Seq, st: State, sc: Scope, ex: Exits, body: Body) {
	const e = this;
	const label = ts.isLabeledStatement(n.parent) ? n.parent.label.text : undefined;
	const isMine = (o: Out) => !o.label || o.label === label;
	// 1. complete unrolling
	if (seq.len.op === "int" && Number(seq.len.name) <= e.unrollLimit) {
		const after: Out[] = [];
		for (let i = 0; i < Number(seq.len.name); i++) {
			if (st.dead) break;
			const inner = new Exits();
			body(seq.get(T.int(i), st), st, new Scope(sc), inner);
			ex.returns.push(...inner.returns); ex.throws.push(...inner.throws);
			for (const b of inner.breaks) (isMine(b) ? after : ex.breaks).push(b);
			const cont = inner.continues.filter(isMine);
			ex.continues.push(...inner.continues.filter((c) => !isMine(c)));
			const m = e.merge([...(st.dead ? [] : [{ st: st.fork(), v: UNDEF as SV }]), ...cont]);
			if (!m) { st.dead = true; break; }
			st.set(m.st);
		}
		if (!st.dead) after.push({ st: st.fork(), v: UNDEF });
		const m = e.merge(after);
		if (!m) { st.dead = true; return; }
		st.set(m.st);
		return;
	}
	// 2. search loop
	if (trySearch(e, n, seq, st, sc, ex, body, isMine)) return;
	// 3. invariants
	withInvariants(e, n, st, sc, ex, isMine, seq, body);
};

interface BoundRun { iName: string; i: Term; normal: Out[]; exits: { kind: keyof Exits; o: Out }[]; base: number; facts: Term[]; writes: { f: string; ref: Term }[]; mark: number }

/** run the body once for an arbitrary index */
export function runBound(e: Engine, seq: Seq, st: State, sc: Scope, body: Body, isMine: (o: Out) => boolean): BoundRun {
	const mark = T.raw("mark", [], "Int", T.freshName("m")).id;
	const base = st.pc.length;
	const normal: Out[] = [];
	const exits: { kind: keyof Exits; o: Out }[] = [];
	let iT!: Term;
	const f0 = e.facts.length;
	const writes: { f: string; ref: Term }[] = [];
	const bt0 = e.boundStack.length;
	e.withBound(["Int"], ([i]) => T.and(T.le(T.int(0), i), T.lt(i, seq.len)), ([i]) => {
		iT = i;
		const s = st.fork();
		s.writes = writes;
		const inner = new Exits();
		body(seq.get(i, s), s, new Scope(sc), inner);
		if (!s.dead) normal.push({ st: s, v: UNDEF });
		for (const c of inner.continues) if (isMine(c)) normal.push(c); else exits.push({ kind: "continues", o: c });
		for (const o of inner.returns) exits.push({ kind: "returns", o });
		for (const o of inner.throws) exits.push({ kind: "throws", o });
		for (const o of inner.breaks) exits.push({ kind: "breaks", o });
	});
	return { iName: iT.name!, i: iT, normal, exits, base, facts: e.facts.slice(f0), writes, mark };
}
const relOf = (o: Out, base: number) => T.and(...o.st.pc.slice(base));

function isFreshIn(e: Engine, ref: Term, mark: number): boolean { return ref.id > mark && isAlloc(ref); }
function isAlloc(ref: Term): boolean {
	if (ref.op === "app" && ref.name!.startsWith("new!")) return true;
	const [b] = T.baseOff(ref);
	if (b && b.op === "const" && b.name!.startsWith("A!")) return true;
	if (ref.op === "ite") return isAlloc(ref.args[1]) && isAlloc(ref.args[2]);
	return false;
}

function trySearch(e: Engine, n: ts.Node, seq: Seq, st: State, sc: Scope, ex: Exits, body: Body, isMine: (o: Out) => boolean): boolean {
	const snap = e.snapshot();
	const r = runBound(e, seq, st, sc, body, isMine);
	const unchanged = (o: Out): boolean => {
		for (const [c, v] of st.cells) { const w = o.st.cells.get(c); if (!w || !sameSV(v, w)) return false; }
		return true;
	};
	// heap writes on normal paths must go to objects allocated in this iteration
	let ok = r.normal.every(unchanged);
	if (ok) for (const o of r.normal) {
		if (o.st.heap.epoch !== st.heap.epoch) { ok = false; break; }
		for (const [f, t] of o.st.heap.m) {
			const t0 = e.heapGet(st.heap, f);
			if (t !== t0 && !onlyFreshStores(e, t, t0, r.mark)) { ok = false; break; }
		}
		if (!ok) break;
	}
	if (!ok) { e.restore(snap); return false; }
	const N = T.or(...r.normal.map((o) => relOf(o, r.base)));
	if (r.exits.length === 0) return true;
	const f = e.fresh("found", "Bool"), k = e.fresh("k", "Int");
	const sub = (t: Term, x: Term) => T.subst(t, new Map([[r.iName, x]]));
	const Nk = sub(N, k);
	const range = T.and(T.le(T.int(0), k), T.lt(k, seq.len));
	e.addFact(T.implies(f, T.and(range, T.not(Nk))));
	e.withBound(["Int"], ([j]) => T.and(T.le(T.int(0), j), T.lt(j, seq.len)), ([j]) => { e.addFact(T.implies(T.not(f), sub(N, j))); });
	e.withBound(["Int"], ([j]) => T.and(T.le(T.int(0), j), T.lt(j, k), f), ([j]) => { e.addFact(sub(N, j)); });
	// totality: at the witness one of the exits is taken
	const rels = r.exits.map((x) => sub(relOf(x.o, r.base), k));
	e.addFact(T.implies(T.and(f, pcT(st)), T.or(...rels)));
	// instantiate the body's facts at the witness
	for (const q of r.facts) if (q.op === "forall" && q.qvars!.length === 1 && q.qvars![0].name === r.iName) e.addFact(T.subst(q.args[0], new Map([[r.iName, k]])));
	const after: Out[] = [];
	for (const { kind, o } of r.exits) {
		const s = substState(o.st, new Map([[r.iName, k]]));
		s.writes = st.writes;
		if (st.writes) for (const w of r.writes) st.writes.push({ f: w.f, ref: sub(w.ref, k) });
		const rest = s.pc.slice(r.base);
		s.pc = [...st.pc];
		s.assume(f);
		for (const p of rest) s.assume(p);
		if (s.dead) continue;
		const memo = new Map<number, Term>();
		const out: Out = { st: s, v: substSV(o.v, new Map([[r.iName, k]]), memo), label: o.label, node: o.node };
		if (kind === "breaks" && isMine(o)) after.push(out);
		else (ex[kind] as Out[]).push(out);
	}
	const s2 = st.fork(T.not(f));
	if (N === T.FALSE) { /* body always exits: not found only when empty */ }
	after.unshift({ st: s2, v: UNDEF });
	const m = e.merge(after);
	if (!m) { st.dead = true; return true; }
	st.set(m.st);
	return true;
}
function onlyFreshStores(e: Engine, t: Term, t0: Term, mark: number): boolean {
	if (t === t0) return true;
	if (t.op === "store") return isFreshIn(e, t.args[1], mark) && onlyFreshStores(e, t.args[0], t0, mark);
	if (t.op === "ite") return onlyFreshStores(e, t.args[1], t0, mark) && onlyFreshStores(e, t.args[2], t0, mark);
	return false;
}

interface Step { head: State; i?: Term }
/** generic invariant rule; `seq` for counted loops, otherwise cond/incr given in `whileOf` */
function withInvariants(e: Engine, n: ts.Node, st: State, sc: Scope, ex: Exits, isMine: (o: Out) => boolean, seq: Seq | undefined, body: Body, whileOf?: { cond: (s: State, x: Exits) => Term; incr: (s: State, x: Exits) => void }) {
	const lname = where(n);
	// --- discover what the loop modifies
	let modCells = new Map<Cell, "same" | "val">();
	let modHeap = new Map<string, Set<number> | "all">();
	const refTerms = new Map<number, Term>();
	const mark0 = T.raw("mark", [], "Int", T.freshName("m")).id;
	const A0 = { ...e.A };
	const entry = st.fork();
	let freshWrites = new Set<string>();
	const mkHead = (): { s: State; i?: Term } => {
		const s = st.fork();
		e.newBase();
		for (const [c, mode] of modCells) {
			const v0 = st.cells.get(c)!;
			s.cells.set(c, havocCell(e, c, v0, mode, s));
		}
		for (const [f, refs] of modHeap) {
			const h0 = e.heapGet(st.heap, f);
			const es = T.elemSort(h0.sort);
			if (refs === "all") {
				const nh = T.konst(T.freshName(`HL_${f}`), h0.sort);
				e.baseAxioms(nh, f, e.Anow);
				s.heap.m.set(f, nh);
				continue;
			}
			if (freshWrites.has(f)) {
				const nh = T.konst(T.freshName(`HL_${f}`), h0.sort);
				e.baseAxioms(nh, f, e.Anow);
				e.withBound(["Int"], ([r]) => T.and(T.lt(r, T.add(A0.base, T.int(A0.n))), ...[...refs].map((id) => T.not(T.eq(r, refTerms.get(id)!)))), ([r]) => {
					e.addFact(T.eq(T.raw("select", [nh, r], es), T.select(h0, r)));
				});
				s.heap.m.set(f, nh);
			} else {
				let h = h0;
				for (const id of refs) {
					const v = e.fresh(`hv_${f}`, es);
					wfFresh(e, v, f);
					h = T.store(h, refTerms.get(id)!, v);
				}
				s.heap.m.set(f, h);
			}
		}
		let i: Term | undefined;
		if (seq) { i = e.fresh("it", "Int"); s.assume(T.le(T.int(0), i)); s.assume(T.le(i, seq.len)); }
		return { s, i };
	};
	const runBody = (h: { s: State; i?: Term }, writes: { f: string; ref: Term }[]) => {
		const s = h.s.fork();
		s.writes = writes;
		const inner = new Exits();
		let exitSt: State | undefined;
		if (seq) {
			s.assume(T.lt(h.i!, seq.len));
			body(seq.get(h.i!, s), s, new Scope(sc), inner);
		} else {
			const c = whileOf!.cond(s, inner);
			if (!s.dead) {
				exitSt = s.fork(T.not(c));
				s.assume(c);
				if (!s.dead) body(UNDEF, s, sc, inner);
			}
		}
		const normal: Out[] = [];
		if (!s.dead) normal.push({ st: s, v: UNDEF });
		for (const c of inner.continues) if (isMine(c)) normal.push(c);
		if (whileOf) for (const o of normal) whileOf.incr(o.st, inner);
		return { inner, normal: normal.filter((o) => !o.st.dead), exitSt };
	};
	for (let iter = 0; ; iter++) {
		if (iter > 12) throw new Unsupported("loop modification analysis did not stabilise", n);
		const snap = e.snapshot();
		const h = mkHead();
		const writes: { f: string; ref: Term }[] = [];
		const headCells = new Map(h.s.cells);
		const r = runBody(h, writes);
		let changed = false;
		for (const o of r.normal) for (const [c, v0] of headCells) {
			const v = o.st.cells.get(c);
			if (!v) continue;
			const mode = modCells.get(c);
			if (mode === undefined) { if (!sameSV(v0, v)) { modCells.set(c, kindOf(v) === kindOf(st.cells.get(c)!) ? "same" : "val"); changed = true; } }
			else if (mode === "same" && kindOf(v) !== kindOf(st.cells.get(c)!)) { modCells.set(c, "val"); changed = true; }
		}
		for (const w of writes) {
			if (w.f === "*") throw new Unsupported("heap havoc inside a loop", n);
			const cur = modHeap.get(w.f);
			const inv = w.ref.id < mark0 || refTerms.has(w.ref.id);
			if (inv) {
				if (cur === "all") continue;
				if (!cur) { modHeap.set(w.f, new Set([w.ref.id])); changed = true; }
				else if (!cur.has(w.ref.id)) { cur.add(w.ref.id); changed = true; }
				refTerms.set(w.ref.id, w.ref);
			} else if (isAlloc(w.ref)) {
				if (!cur) { modHeap.set(w.f, new Set()); changed = true; }
				if (!freshWrites.has(w.f)) { freshWrites.add(w.f); changed = true; }
			} else if (cur !== "all") { modHeap.set(w.f, "all"); changed = true; }
		}
		e.restore(snap);
		if (!changed) break;
	}
	if (st.writes) for (const [f, refs] of modHeap) { if (refs === "all") st.writes.push({ f, ref: e.fresh("anyref", "Int") }); else { for (const id of refs) st.writes.push({ f, ref: refTerms.get(id)! }); if (freshWrites.has(f)) st.writes.push({ f, ref: e.Anow }); } }
	// --- candidate invariants
	const cands = candidates(e, n, sc, st, modCells, seq);
	// arrays that grow in the loop
	const grown = modHeap.get("#len");
	if (grown && grown !== "all") for (const id of grown) {
		const ref = refTerms.get(id)!;
		const l0 = e.hread(st.heap, "#len", ref);
		const lenAt = (s: State) => e.hread(s.heap, "#len", ref);
		cands.push({ name: "array keeps at least its initial length", at: (s) => T.le(l0, lenAt(s)) });
		const el0 = e.hread(st.heap, "#el", ref);
		cands.push({ name: "array keeps its initial elements", at: (s) => { const j = T.freshName("q"); const jv = T.bound(j, "Int"); return T.forall([{ name: j, sort: "Int" }], T.implies(T.and(T.le(T.int(0), jv), T.lt(jv, l0)), T.eq(T.select(e.hread(s.heap, "#el", ref), jv), T.select(el0, jv)))); } });
		if (seq) {
			cands.push({ name: "array grows by one per iteration", at: (s, _e, i) => T.eq(lenAt(s), T.add(l0, i!)) });
			cands.push({ name: "array grows by at most one per iteration", at: (s, _e, i) => T.le(lenAt(s), T.add(l0, i!)) });
		}
	}
	if (seq && e.counting) cands.push(...counterSums(e, st, modCells, mkHead, runBody, seq));
	const entryI = seq ? T.int(0) : undefined;
	let live = cands.filter((c) => {
		const g = c.at(entry, entry, entryI);
		if (g === undefined) return false;
		return e.prove(`${lname} init ${c.name}`, g, entry.pc);
	});
	for (let round = 0; round < 30; round++) {
		const snap = e.snapshot();
		const h = mkHead();
		for (const c of live) { const g = c.at(h.s, entry, h.i); if (g) h.s.assume(g); }
		const r = runBody(h, []);
		const bad = new Set<any>();
		for (const c of live) {
			for (const o of r.normal) {
				const g = c.at(o.st, entry, h.i ? T.add(h.i, T.int(1)) : undefined);
				if (g === undefined || !e.prove(`${lname} preserve ${c.name}`, g, o.st.pc)) { bad.add(c); break; }
			}
		}
		e.restore(snap);
		if (bad.size === 0) break;
		live = live.filter((c) => !bad.has(c));
	}
	e.loopNotes.push({ loop: lname, fn: e.curFn, kept: live.map((c) => c.name), dropped: cands.filter((c) => !live.includes(c)).map((c) => c.name) });
	// --- obligations for the kept invariants are re-recorded (init + preservation), then the exits
	for (const c of live) { const g = c.at(entry, entry, entryI); if (g) e.oblige(`loop ${lname}: invariant '${c.name}' holds on entry`, "invariant-init", g, entry.pc); }
	const h = mkHead();
	for (const c of live) { const g = c.at(h.s, entry, h.i); if (g) h.s.assume(g); }
	const r = runBody(h, []);
	for (const c of live) for (const o of r.normal) {
		const g = c.at(o.st, entry, h.i ? T.add(h.i, T.int(1)) : undefined);
		if (g) e.oblige(`loop ${lname}: invariant '${c.name}' is preserved`, "invariant-preserve", g, o.st.pc);
	}
	const after: Out[] = [];
	if (seq) {
		const s = h.s.fork(T.eq(h.i!, seq.len));
		// replace index by len for readability
		after.push({ st: s, v: UNDEF });
	} else if (r.exitSt && !r.exitSt.dead) after.push({ st: r.exitSt, v: UNDEF });
	ex.returns.push(...r.inner.returns); ex.throws.push(...r.inner.throws);
	for (const b of r.inner.breaks) (isMine(b) ? after : ex.breaks).push(b);
	ex.continues.push(...r.inner.continues.filter((c) => !isMine(c)));
	for (const o of [...r.inner.returns, ...r.inner.throws, ...after]) o.st.writes = st.writes;
	const m = e.merge(after);
	if (!m) { st.dead = true; return; }
	const w = st.writes;
	st.set(m.st);
	st.writes = w;
}
function kindOf(v: SV): string { return v.k; }
function wfFresh(e: Engine, v: Term, f: string) {
	if (v.sort === "Val") e.addFact(T.implies(T.is("R", v), T.lt(T.sel("rv", v), e.Anow)));
	else if (v.sort === "Int") e.addFact(T.le(T.int(0), v));
	else if (v.sort === "(Array Int Val)") e.withBound(["Int"], () => T.TRUE, ([i]) => e.addFact(T.implies(T.is("R", T.select(v, i)), T.lt(T.sel("rv", T.select(v, i)), e.Anow))));
	else if (v.sort === "(Array Val Val)") e.withBound(["Val"], () => T.TRUE, ([i]) => e.addFact(T.implies(T.is("R", T.select(v, i)), T.lt(T.sel("rv", T.select(v, i)), e.Anow))));
}
function havocCell(e: Engine, c: Cell, v0: SV, mode: "same" | "val", s: State): SV {
	if (mode === "same") {
		switch (v0.k) {
			case "undef": case "null": return v0;
			case "bool": return { k: "bool", t: e.fresh(`l_${c.name}`, "Bool") };
			case "int": return { k: "int", t: e.fresh(`l_${c.name}`, "Int") };
			case "real": return { k: "real", t: e.fresh(`l_${c.name}`, "Real") };
			case "str": return { k: "str", t: e.fresh(`l_${c.name}`, "Str") };
			case "ref": { const t = e.fresh(`l_${c.name}`, "Int"); e.addFact(T.lt(t, e.Anow)); return { k: "ref", t, raw: v0.raw }; }
		}
	}
	const t = e.fresh(`l_${c.name}`, "Val");
	e.addFact(T.implies(T.is("R", t), T.lt(T.sel("rv", t), e.Anow)));
	if (c.ty && !e.isUntrustedType(c.ty)) return e.typed(t, c.ty, s);
	return svVal(t, true);
}
/** counters: variables whose increment in an iteration depends on the iteration only */
function counterSums(e: Engine, st: State, mod: Map<Cell, "same" | "val">, mkHead: () => { s: State; i?: Term }, runBody: (h: { s: State; i?: Term }, w: any[]) => { normal: Out[] }, seq: Seq): Cand[] {
	const out: Cand[] = [];
	const snap = e.snapshot();
	const h = mkHead();
	const m = e.merge(runBody(h, []).normal);
	e.restore(snap);
	if (process.env.DBG) console.error("counterSums", !!m, h.i?.op, [...mod].map(([c, k]) => c.name + ":" + k + ":" + st.cells.get(c)!.k + ":" + (m ? T.show((m.st.cells.get(c) as any).t) : "")));
	if (!m || !h.i || h.i.op !== "app" && h.i.op !== "const") return out;
	const heads = new Set<number>();
	for (const c of mod.keys()) { const v = h.s.cells.get(c)!; if ((v as any).t) heads.add((v as any).t.id); }
	const mentions = (t: Term): boolean => { const seen = new Set<number>(); const go = (x: Term): boolean => { if (heads.has(x.id)) return true; if (seen.has(x.id)) return false; seen.add(x.id); return x.args.some(go); }; return go(t); };
	for (const [c, mode] of mod) {
		const v0 = st.cells.get(c)!, vh = h.s.cells.get(c)!, v1 = m.st.cells.get(c)!;
		if (mode !== "same" || v0.k !== "int" || vh.k !== "int" || v1.k !== "int") continue;
		const delta = (t: Term): Term | undefined => {
			if (t.op === "ite") { const a = delta(t.args[1]), b = delta(t.args[2]); return a && b && !mentions(t.args[0]) ? T.ite(t.args[0], a, b) : undefined; }
			const d = T.sub(t, vh.t);
			return mentions(d) ? undefined : d;
		};
		const d = delta(v1.t);
		if (!d || d.op === "int") continue;
		const it = h.i;
		const term = (x: Term): Term => T.replace(d, it, x);
		out.push({ name: `${c.name} counts`, at: (s, _e, i) => { const v = s.cells.get(c)!; return v.k === "int" && i ? T.eq(v.t, T.add(v0.t, partialSum(e, term, i, isCount(d)))) : undefined; } });
	}
	return out;
}
const isCount = (t: Term): boolean => (t.op === "ite" ? isCount(t.args[1]) && isCount(t.args[2]) : t.op === "int" && (t.name === "0" || t.name === "1"));
interface Cand { name: string; at: (s: State, entry: State, i: Term | undefined) => Term | undefined }
function visible(sc: Scope): Map<string, Cell> {
	const m = new Map<string, Cell>();
	for (let x: Scope | undefined = sc; x; x = x.parent) for (const [, c] of x.vars) if (!m.has(c.name)) m.set(c.name, c);
	return m;
}
const declCache = new Map<ts.Node, Set<string>>();
/** names declared in the function around a loop */
function declaredNames(n: ts.Node): Set<string> {
	let f: ts.Node = n;
	while (f.parent && !ts.isFunctionLike(f)) f = f.parent;
	let r = declCache.get(f);
	if (r) return r;
	r = new Set();
	const go = (x: ts.Node) => {
		if ((ts.isVariableDeclaration(x) || ts.isParameter(x) || ts.isBindingElement(x)) && ts.isIdentifier(x.name)) r!.add(x.name.text);
		x.forEachChild(go);
	};
	go(f);
	declCache.set(f, r);
	return r;
}
function candidates(e: Engine, n: ts.Node, sc: Scope, st: State, mod: Map<Cell, any>, seq: Seq | undefined): Cand[] {
	const out: Cand[] = [];
	const vis = visible(sc);
	const modNames = [...mod.keys()];
	for (const inv of e.invs) {
		const p = inv.fn.parameters[0]?.name;
		if (!p || !ts.isObjectBindingPattern(p)) continue;
		const names = p.elements.map((el) => ({ key: el.propertyName ? el.propertyName.getText() : el.name.getText(), el }));
		// resolve names; unresolved ones are matched against modified variables of the loop
		const need: string[] = [];
		const used = new Set<Cell>();
		for (const { key } of names) {
			if (key.startsWith("$")) { if (!seq && key !== "$old") need.push("!"); continue; }
			const base = key.startsWith("old_") ? key.slice(4) : key;
			const c = vis.get(base);
			if (c && st.cells.has(c)) used.add(c);
			else if (!need.includes(base)) need.push(base);
		}
		if (need.includes("!")) continue;
		// the function declares that variable, but for another part of its body: the invariant is not about this loop
		if (need.some((k) => declaredNames(n).has(k))) continue;
		const pool = [...modNames, ...[...vis.values()].filter((c) => !mod.has(c) && st.cells.has(c) && !used.has(c))].filter((c) => !used.has(c));
		const assigns: Map<string, Cell>[] = [];
		if (need.length === 0) assigns.push(new Map());
		else if (need.length <= 3) {
			const go = (k: number, m: Map<string, Cell>) => {
				if (assigns.length > 24) return;
				if (k === need.length) { assigns.push(new Map(m)); return; }
				for (const c of pool) { if ([...m.values()].includes(c)) continue; m.set(need[k], c); go(k + 1, m); m.delete(need[k]); }
			};
			go(0, new Map());
		}
		for (const as of assigns) {
			const resolve = (nm: string) => vis.get(nm) && st.cells.has(vis.get(nm)!) ? vis.get(nm)! : as.get(nm)!;
			out.push({
				name: inv.name + (as.size ? `{${[...as].map(([k, c]) => `${k}:=${c.name}`).join(",")}}` : ""),
				at: (s, entry, i) => {
					try {
						return e.evalSpec(inv, p, names.map(({ key, el }) => {
							let v: SV;
							if (key === "$i") v = svInt(i!);
							else if (key === "$at") v = mkFn({ name: "$at", builtin: (a: SV[], st2: State) => seq!.get(a[0].k === "int" ? a[0].t : T.sel("ni", box(a[0])), st2) } as any);
							else if (key === "$len") v = svInt(seq!.len);
							else if (key.startsWith("old_")) v = entry.cells.get(resolve(key.slice(4)))!;
							else v = s.cells.get(resolve(key))!;
							return { el, v };
						}), s);
					} catch (x) { if (x instanceof Unsupported) { e.loopNotes.push({ loop: where(n), fn: e.curFn, error: `${inv.name}: ${x.message}` } as any); return undefined; } throw x; }
				},
			});
		}
	}
	// automatic candidates for counters
	for (const [c, mode] of mod) {
		const v0 = st.cells.get(c)!;
		if (mode === "val" || v0.k === "val") {
			const b0 = box(v0);
			const undefPossible = !c.ty || e.isUntrustedType(c.ty) || c.ty.isUnion();
			if (undefPossible) for (const kd of ["R", "S", "NI", "B"] as const) {
				if (T.is(kd, b0) === T.FALSE) continue;
				out.push({ name: `${c.name} is ${kd}`, at: (s) => T.is(kd, box(s.cells.get(c)!)) });
			}
			if (undefPossible && T.is("Undef", b0) !== T.TRUE) out.push({ name: `${c.name} is defined`, at: (s) => T.not(T.is("Undef", box(s.cells.get(c)!))) });
		}
		if (v0.k === "int" && mode === "same") {
			out.push({ name: `${c.name} >= initial`, at: (s) => { const v = s.cells.get(c)!; return v.k === "int" ? T.le(v0.t, v.t) : undefined; } });
			out.push({ name: `${c.name} <= initial`, at: (s) => { const v = s.cells.get(c)!; return v.k === "int" ? T.le(v.t, v0.t) : undefined; } });
			if (seq) out.push({ name: `${c.name} <= initial + i`, at: (s, _e, i) => { const v = s.cells.get(c)!; return v.k === "int" ? T.le(v.t, T.add(v0.t, i!)) : undefined; } });
		}
	}
	return out;
}

Engine.prototype.forStmt = function (this: Engine, n: ts.ForStatement, st: State, sc: Scope, ex: Exits) {
	const e = this;
	const isc = new Scope(sc);
	if (n.initializer) {
		if (ts.isVariableDeclarationList(n.initializer)) e.varDecls(n.initializer, st, isc, ex);
		else e.eval(n.initializer, st, isc, ex);
	}
	if (st.dead) return;
	const counted = canonical(e, n, st, isc);
	if (counted) {
		const { cell, seq } = counted;
		e.loopOver(n, seq, st, isc, ex, (elem, s, bsc, inner) => {
			s.cells.set(cell, elem);
			e.exec(n.statement, s, new Scope(bsc), inner);
			// the counter itself is owned by the loop rule
			const reset = (o: State) => o.cells.set(cell, counted.start);
			if (!s.dead) reset(s);
			for (const c of inner.continues) reset(c.st);
		});
		return;
	}
	generalLoop(e, n, st, isc, ex, n.condition, n.statement, n.incrementor);
};
Engine.prototype.whileStmt = function (this: Engine, n: ts.WhileStatement, st: State, sc: Scope, ex: Exits) {
	generalLoop(this, n, st, sc, ex, n.expression, n.statement, undefined);
};
function generalLoop(e: Engine, n: ts.Node, st: State, sc: Scope, ex: Exits, cond: ts.Expression | undefined, stmt: ts.Statement, incr: ts.Expression | undefined) {
	const label = ts.isLabeledStatement(n.parent) ? n.parent.label.text : undefined;
	const isMine = (o: Out) => !o.label || o.label === label;
	// complete unrolling while the condition stays decided
	const snap = e.snapshot();
	const save = st.fork();
	const tryUnroll = (): boolean => {
		const exTmp = new Exits();
		const after: Out[] = [];
		const s = st.fork();
		for (let k = 0; k <= e.unrollLimit; k++) {
			const c = cond ? e.cond(cond, s, sc, exTmp) : T.TRUE;
			if (s.dead) break;
			if (c === T.FALSE) { after.push({ st: s.fork(), v: UNDEF }); s.dead = true; break; }
			if (c !== T.TRUE) return false;
			if (k === e.unrollLimit) return false;
			const inner = new Exits();
			e.exec(stmt, s, new Scope(sc), inner);
			exTmp.returns.push(...inner.returns); exTmp.throws.push(...inner.throws);
			for (const b of inner.breaks) (isMine(b) ? after : exTmp.breaks).push(b);
			exTmp.continues.push(...inner.continues.filter((c2) => !isMine(c2)));
			const m = e.merge([...(s.dead ? [] : [{ st: s.fork(), v: UNDEF as SV }]), ...inner.continues.filter(isMine)]);
			if (!m) { s.dead = true; break; }
			s.set(m.st);
			if (incr) e.eval(incr, s, sc, exTmp);
			if (k > 3 && cond === undefined && after.length === 0 && exTmp.returns.length === 0) return false;
		}
		ex.returns.push(...exTmp.returns); ex.throws.push(...exTmp.throws); ex.breaks.push(...exTmp.breaks); ex.continues.push(...exTmp.continues);
		const m = e.merge(after);
		if (!m) { st.dead = true; return true; }
		st.set(m.st);
		return true;
	};
	let done = false;
	try { done = cond !== undefined && tryUnroll(); } catch (x) { if (!(x instanceof Unsupported)) throw x; }
	if (done) return;
	e.restore(snap);
	st.set(save);
	withInvariants(e, n, st, sc, ex, isMine, undefined, (_elem, s, bsc, inner) => e.exec(stmt, s, new Scope(bsc), inner), {
		cond: (s, x) => (cond ? e.cond(cond, s, sc, x) : T.TRUE),
		incr: (s, x) => { if (incr && !s.dead) e.eval(incr, s, sc, x); },
	});
}
/** for (let i = a; i < b; i++) with i unassigned in the body and b unaffected by it */
function canonical(e: Engine, n: ts.ForStatement, st: State, isc: Scope): { cell: Cell; seq: Seq; start: SV } | undefined {
	if (!n.initializer || !ts.isVariableDeclarationList(n.initializer) || n.initializer.declarations.length < 1) return undefined;
	const d = n.initializer.declarations[0];
	if (!ts.isIdentifier(d.name) || !n.condition || !n.incrementor) return undefined;
	const sym = e.checker.getSymbolAtLocation(d.name)!;
	const cell = isc.vars.get(sym)!;
	const start = st.cells.get(cell)!;
	if (start.k !== "int") return undefined;
	const c = n.condition;
	if (!ts.isBinaryExpression(c) || !ts.isIdentifier(c.left) || e.symbolOf(c.left) !== sym) return undefined;
	const inc = n.incrementor;
	let dir = 0;
	if ((ts.isPostfixUnaryExpression(inc) || ts.isPrefixUnaryExpression(inc)) && ts.isIdentifier(inc.operand) && e.symbolOf(inc.operand) === sym) {
		if (inc.operator === ts.SyntaxKind.PlusPlusToken) dir = 1;
		if (inc.operator === ts.SyntaxKind.MinusMinusToken) dir = -1;
	} else if (ts.isBinaryExpression(inc) && ts.isIdentifier(inc.left) && e.symbolOf(inc.left) === sym && ts.isNumericLiteral(inc.right) && inc.right.text === "1") {
		if (inc.operatorToken.kind === ts.SyntaxKind.PlusEqualsToken) dir = 1;
		if (inc.operatorToken.kind === ts.SyntaxKind.MinusEqualsToken) dir = -1;
	}
	if (dir === 0) return undefined;
	const op = c.operatorToken.kind;
	const SK = ts.SyntaxKind;
	if (dir === 1 && op !== SK.LessThanToken && op !== SK.LessThanEqualsToken) return undefined;
	if (dir === -1 && op !== SK.GreaterThanToken && op !== SK.GreaterThanEqualsToken) return undefined;
	// body must not assign the counter, nor names/properties occurring in the bound
	const boundNames = new Set<string>();
	const grab = (x: ts.Node) => { if (ts.isIdentifier(x)) boundNames.add(x.text); x.forEachChild(grab); };
	grab(c.right);
	let bad = false;
	const visit = (x: ts.Node) => {
		const tgt = (t: ts.Node) => { if (ts.isIdentifier(t) && (e.symbolOf(t) === sym || boundNames.has(t.text))) bad = true; if (ts.isPropertyAccessExpression(t) && boundNames.has(t.name.text)) bad = true; };
		if (ts.isBinaryExpression(x) && x.operatorToken.kind >= SK.FirstAssignment && x.operatorToken.kind <= SK.LastAssignment) tgt(x.left);
		if ((ts.isPostfixUnaryExpression(x) || ts.isPrefixUnaryExpression(x)) && (x.operator === SK.PlusPlusToken || x.operator === SK.MinusMinusToken)) tgt(x.operand);
		if (ts.isCallExpression(x) && ts.isPropertyAccessExpression(x.expression) && ["push", "pop", "shift", "splice", "unshift"].includes(x.expression.name.text)) { const o = x.expression.expression; const nm = ts.isIdentifier(o) ? o.text : ts.isPropertyAccessExpression(o) ? o.name.text : ""; if (boundNames.has(nm)) bad = true; }
		x.forEachChild(visit);
	};
	visit(n.statement);
	if (bad) return undefined;
	const x = new Exits();
	const s = st.fork();
	let b: SV;
	try { b = e.eval(c.right, s, isc, x); } catch { return undefined; }
	if (x.throws.length || s.dead) return undefined;
	let bi: Term | undefined = b.k === "int" ? b.t : undefined;
	if (!bi) return undefined;
	const a = start.t;
	let cnt: Term;
	if (dir === 1) cnt = op === SK.LessThanToken ? T.sub(bi, a) : T.add(T.sub(bi, a), T.int(1));
	else cnt = op === SK.GreaterThanToken ? T.sub(a, bi) : T.add(T.sub(a, bi), T.int(1));
	const nonneg = a.op === "int" && a.name === "0" && dir === 1 && op === SK.LessThanToken && bi.op === "select" ? true : false;
	const len = cnt.op === "int" ? (T.intVal(cnt) < 0n ? T.int(0) : cnt) : nonneg ? cnt : T.ite(T.le(T.int(0), cnt), cnt, T.int(0));
	return { cell, start, seq: { len, get: (i) => svInt(dir === 1 ? T.add(i, a) : T.sub(a, i)) } };
}
