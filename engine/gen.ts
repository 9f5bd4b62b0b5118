// Input generator for the runtime cross-check and the search for failing inputs.
export class G {
	private s: number;
	lits: { str: string[]; num: number[] };
	size = 4;
	constructor(seed: number, lits: { str: string[]; num: number[] } = { str: [], num: [] }) { this.s = (seed * 2654435761) >>> 0 || 1; this.lits = lits; for (let i = 0; i < 5; i++) this.next(); }
	next(): number { let x = this.s; x ^= x << 13; x >>>= 0; x ^= x >>> 17; x ^= x << 5; x >>>= 0; this.s = x || 1; return x / 4294967296; }
	int(lo: number, hi: number): number { return lo + Math.floor(this.next() * (hi - lo + 1)); }
	chance(p: number): boolean { return this.next() < p; }
	bool(): boolean { return this.chance(0.5); }
	pick<T>(xs: readonly T[]): T { return xs[this.int(0, xs.length - 1)]; }
	oneOf<T>(...fs: (() => T)[]): T { return this.pick(fs)(); }
	opt<T>(f: () => T, p = 0.5): T | undefined { return this.chance(p) ? f() : undefined; }
	/** a natural number, biased to small values, boundaries and the constants of the code under check */
	nat(): number {
		const r = this.next();
		if (r < 0.5) return this.int(0, 6);
		if (r < 0.7 && this.lits.num.length) return Math.max(0, Math.floor(this.pick(this.lits.num)) + this.int(-1, 1));
		if (r < 0.85) return this.int(0, 40);
		if (r < 0.95) return this.int(0, 5000);
		return this.int(0, 2 ** 31);
	}
	/** a finite number */
	num(): number { const r = this.next(); if (r < 0.55) return this.nat(); if (r < 0.75) return this.nat() / this.pick([2, 3, 4, 10, 7]); if (r < 0.9) return -this.nat(); return -this.nat() / this.pick([2, 4, 10]); }
	/** any number */
	anyNum(): number { return this.chance(0.85) ? this.num() : this.pick([Number.NaN, Infinity, -Infinity, Number.MAX_SAFE_INTEGER, Number.MAX_SAFE_INTEGER + 1, 1e308, 5e-324, -0]); }
	/** a short identifier-like string from a small alphabet so that collisions are common */
	id(): string { const r = this.next(); if (r < 0.8) return this.pick(["a", "b", "c", "d", "x1"]); if (r < 0.9) return this.pick(["", " ", "aa", "ab", "A", "__proto__", "constructor", "toString"]); return this.str(); }
	str(): string {
		const r = this.next();
		if (r < 0.35 && this.lits.str.length) return this.pick(this.lits.str);
		if (r < 0.75) { let t = ""; const n = this.int(0, 6); for (let i = 0; i < n; i++) t += this.pick(["a", "b", "c", " ", "/", ".", "-", "_", "0", "1", "\n", "A", "é", "😀", "\t"]); return t; }
		if (r < 0.85 && this.lits.str.length) return this.pick(this.lits.str) + this.pick(["", " ", "x", "s"]) + this.pick(this.lits.str);
		let t = ""; const n = this.int(0, 40); for (let i = 0; i < n; i++) t += String.fromCharCode(this.pick([this.int(32, 126), this.int(0, 255), this.int(0, 0xffff)])); return t;
	}
	array<T>(f: (g: G) => T, max = this.size): T[] { const n = this.chance(0.9) ? this.int(0, max) : this.int(0, max * 3); return Array.from({ length: n }, () => f(this)); }
	record<T>(f: (g: G) => T, max = this.size): Record<string, T> { const r: Record<string, T> = {}; const n = this.int(0, max); for (let i = 0; i < n; i++) r[this.pick(["a", "b", "c", "d", "e", "k1"])] = f(this); return r; }
	/** an object with each field generated, undefined fields left out */
	partial(fs: Record<string, (g: G) => unknown>): any { const r: any = {}; for (const [k, f] of Object.entries(fs)) { const v = f(this); if (v !== undefined) r[k] = v; } return r; }
	subset<T>(xs: readonly T[]): T[] { return xs.filter(() => this.bool()); }
	shuffle<T>(xs: T[]): T[] { const a = xs.slice(); for (let i = a.length - 1; i > 0; i--) { const j = this.int(0, i); [a[i], a[j]] = [a[j], a[i]]; } return a; }
	/** an arbitrary JSON value */
	json(d = 2): any { const r = this.int(0, d > 0 ? 7 : 5); switch (r) { case 0: return null; case 1: return this.bool(); case 2: return this.anyNum(); case 3: return this.str(); case 4: return undefined; case 5: return this.nat(); case 6: return this.array(() => this.json(d - 1)); default: return this.record(() => this.json(d - 1)); } }
	/** drop or corrupt fields of a value (for parsers of untrusted input) */
	corrupt<T>(v: T, p = 0.15): T {
		if (!this.chance(p * 3)) return v;
		const go = (x: any): any => {
			if (this.chance(p * 0.4)) return this.json(1);
			if (Array.isArray(x)) return x.map(go);
			if (x && typeof x === "object") { const r: any = {}; for (const [k, y] of Object.entries(x)) { if (this.chance(p * 0.3)) continue; r[k] = go(y); } if (this.chance(p * 0.3)) r[this.pick(["extra", "kind", "__x"])] = this.json(1); return r; }
			return x;
		};
		return go(v);
	}
}
