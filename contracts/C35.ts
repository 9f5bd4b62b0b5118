import { TokenBudget } from "../../repo/packages/agent/src/compaction/token-budget.ts";
import { contract } from "../engine/spec.ts";
import type { G } from "../engine/gen.ts";

const FIN = { _ratio: "fin", _anchorTokens: "fin", _recentAbsError: "fin", _sampleCount: "int" } as const;
type B = { _ratio: number; _anchorTokens: number; _hasAnchor: boolean; _recentAbsError: number; _sampleCount: number };
const inv = (b: TokenBudget): boolean => { const x = b as unknown as B; return x._ratio >= 2.2 && x._ratio <= 6 && x._recentAbsError >= 0 && x._anchorTokens >= 0; };
/** no denormals or values near the precision limit: the proof is over exact reals */
const num = (g: G): number => (g.chance(0.85) ? g.num() : g.pick([Number.NaN, Infinity, -Infinity, -0, 2 ** 31]));
const genBudget = (g: G): TokenBudget => { const b = new TokenBudget(); const n = g.int(0, 4); for (let i = 0; i < n; i++) b.anchor(num(g), num(g)); return b; };

export const contracts = [
	contract({
		name: "TokenBudget.anchor",
		target: TokenBudget.prototype.anchor,
		refine: FIN,
		requires: (b: TokenBudget) => inv(b),
		frame: "pure",
		modifies: (b: TokenBudget) => [b],
		pre: (b: TokenBudget) => ({ tokens: (b as unknown as B)._anchorTokens, ratio: (b as unknown as B)._ratio }),
		ensures: {
			"the ratio stays between its bounds and the error is non-negative": (_r: unknown, _o: unknown, b: TokenBudget) => inv(b),
			"a usable observation becomes the anchor": (_r: unknown, _o: unknown, b: TokenBudget, t: number, c: number) => !(Number.isFinite(t) && Number.isFinite(c) && t > 0 && c > 0) || ((b as unknown as B)._hasAnchor && (b as unknown as B)._anchorTokens >= t && (b as unknown as B)._anchorTokens < t + 1),
			"an unusable observation changes nothing": (_r: unknown, o: { tokens: number; ratio: number }, b: TokenBudget, t: number, c: number) => (Number.isFinite(t) && Number.isFinite(c) && t > 0 && c > 0) || ((b as unknown as B)._anchorTokens === o.tokens && (b as unknown as B)._ratio === o.ratio),
		},
		gen: (g) => [genBudget(g), num(g), num(g)],
	}),
	contract({
		name: "TokenBudget.estimateDelta",
		target: TokenBudget.prototype.estimateDelta,
		refine: FIN,
		requires: (b: TokenBudget) => inv(b),
		frame: "pure",
		ensures: {
			"a finite whole number of tokens": (r: number) => Number.isInteger(r) && r >= 0,
			"never less than one token per six characters": (r: number, _o: unknown, _b: TokenBudget, c: number) => !Number.isFinite(c) || c <= 0 || r * 6 >= c,
			"never more than the densest ratio allows": (r: number, _o: unknown, _b: TokenBudget, c: number) => !Number.isFinite(c) || c <= 0 || r <= c / 2.2 + 1,
		},
		gen: (g) => [genBudget(g), num(g)],
	}),
	contract({
		name: "TokenBudget.current",
		target: TokenBudget.prototype.current,
		refine: FIN,
		requires: (b: TokenBudget) => inv(b),
		frame: "pure",
		ensures: {
			"finite and never below the anchor": (r: number, _o: unknown, b: TokenBudget) => Number.isFinite(r) && r >= 0 && (!(b as unknown as B)._hasAnchor || r >= (b as unknown as B)._anchorTokens),
			"counts everything added since the anchor": (r: number, _o: unknown, b: TokenBudget, c: number) => !Number.isFinite(c) || c <= 0 || (r - ((b as unknown as B)._hasAnchor ? (b as unknown as B)._anchorTokens : 0)) * 6 >= c,
			"keeps a two per cent margin of the window": (r: number, _o: unknown, b: TokenBudget, c: number, w: number) => !(b as unknown as B)._hasAnchor || !Number.isFinite(w) || w <= 0 || r >= (b as unknown as B)._anchorTokens + 0.02 * w,
			"keeps a margin of twice the recent error": (r: number, _o: unknown, b: TokenBudget) => !(b as unknown as B)._hasAnchor || r >= (b as unknown as B)._anchorTokens + 2 * (b as unknown as B)._recentAbsError,
		},
		gen: (g) => [genBudget(g), num(g), num(g)],
	}),
];
