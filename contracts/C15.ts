import { downgradeReasoning, estimateTurnCostUsd, evaluateCostGuard } from "../../repo/packages/coding-agent/src/core/cost-guard.ts";
import type { CostGuardDecision, CostGuardSettings, ReasoningEffortMap, ReasoningLevel } from "../../repo/packages/coding-agent/src/core/cost-guard.ts";
import { contract } from "../engine/spec.ts";
import type { G } from "../engine/gen.ts";

type Args = Parameters<typeof estimateTurnCostUsd>[0];
const FIN = { inputTokens: "fin", maxOutputTokens: "fin", cachedInputTokens: "fin", input: "fin", output: "fin", cacheRead: "fin", cacheWrite: "fin", thresholdTokens: "fin", inputMultiplier: "fin", outputMultiplier: "fin" } as const;
const nonneg = (x: number | undefined): boolean => x === undefined || x >= 0;
const long = (a: Args): boolean => !!a.longContextPricing && a.inputTokens > a.longContextPricing.thresholdTokens;
const inMul = (a: Args): number => (a.longContextPricing && a.inputTokens > a.longContextPricing.thresholdTokens ? a.longContextPricing.inputMultiplier : 1);
const outMul = (a: Args): number => (a.longContextPricing && a.inputTokens > a.longContextPricing.thresholdTokens ? a.longContextPricing.outputMultiplier : 1);
const least = (a: number, b: number): number => (a < b ? a : b);
const fresh = (a: Args): number => a.inputTokens - (a.cachedInputTokens === undefined || a.cachedInputTokens < 0 ? 0 : a.cachedInputTokens < a.inputTokens ? a.cachedInputTokens : a.inputTokens);
const cached = (a: Args): number => a.inputTokens - fresh(a);
/** rounding slack for the run-time cross-check only; the proof uses exact arithmetic */
const close = (a: number, b: number): boolean => a >= b - 1e-9 * (1 + (b < 0 ? -b : b));
const rate = (g: G) => g.pick([0, 0.25, 1, 3, 15, 75, 7.5]);

function level(l: unknown): number {
	if (l === "off") return 0;
	if (l === "minimal") return 1;
	if (l === "low") return 2;
	if (l === "medium") return 3;
	if (l === "high") return 4;
	if (l === "xhigh") return 5;
	if (l === "max") return 6;
	if (l === "ultra") return 7;
	return -1;
}
const LEVELS = ["off", "minimal", "low", "medium", "high", "xhigh", "max", "ultra"] as const;

export const contracts = [
	contract({
		name: "estimateTurnCostUsd",
		target: estimateTurnCostUsd,
		frame: "pure",
		refine: FIN,
		requires: (a: Args) => a.inputTokens >= 0 && nonneg(a.cost.input) && nonneg(a.cost.output) && nonneg(a.cost.cacheRead) && nonneg(a.cost.cacheWrite) && (!a.longContextPricing || (a.longContextPricing.inputMultiplier >= 1 && a.longContextPricing.outputMultiplier >= 1)),
		ensures: {
			"never negative": (r: number) => r >= 0,
			"at least the output budget at the output price in force": (r: number, _o: unknown, a: Args) => close(r * 1_000_000, a.maxOutputTokens * a.cost.output * outMul(a)),
			"at least the fresh input at the input price in force": (r: number, _o: unknown, a: Args) => close(r * 1_000_000, fresh(a) * a.cost.input * inMul(a)),
			"at least the fresh input at the cache-write price in force": (r: number, _o: unknown, a: Args) => a.cost.cacheWrite === undefined || close(r * 1_000_000, fresh(a) * a.cost.cacheWrite * inMul(a)),
			"at least the cached input at the cache-read price in force": (r: number, _o: unknown, a: Args) => close(r * 1_000_000, cached(a) * (a.cost.cacheRead === undefined ? a.cost.input : a.cost.cacheRead) * inMul(a)),
			"at least the sum of its parts": (r: number, _o: unknown, a: Args) => close(r * 1_000_000, (fresh(a) * a.cost.input + cached(a) * (a.cost.cacheRead === undefined ? a.cost.input : a.cost.cacheRead)) * inMul(a) + a.maxOutputTokens * a.cost.output * outMul(a)),
		},
		gen: (g) => [{ inputTokens: g.nat(), maxOutputTokens: g.chance(0.9) ? g.nat() : -g.nat(), cost: g.partial({ input: rate, output: rate, cacheRead: (h) => h.opt(() => rate(h)), cacheWrite: (h) => h.opt(() => rate(h)) }), ...g.partial({ cachedInputTokens: (h) => h.opt(() => (h.chance(0.9) ? h.nat() : -h.nat())), longContextPricing: (h) => h.opt(() => ({ thresholdTokens: h.nat(), inputMultiplier: h.pick([1, 1.5, 2]), outputMultiplier: h.pick([1, 1.5, 2]) })) }) }],
	}),
	contract({
		name: "evaluateCostGuard",
		target: evaluateCostGuard,
		frame: "pure",
		refine: { estUsd: "fin", maxTurnUsd: "fin", cumulativeBackgroundUsd: "fin" },
		ensures: {
			"trips only on explicit opt-in with a positive ceiling": (r: CostGuardDecision, _o: unknown, _e: number, s: CostGuardSettings) => !r.over || (s.enabled && s.maxTurnUsd > 0),
			"trips exactly when foreground plus background spend exceeds the ceiling": (r: CostGuardDecision, _o: unknown, e: number, s: CostGuardSettings, bg?: number) =>
				!(s.enabled && s.maxTurnUsd > 0) || r.over === (bg !== undefined && bg > 0 ? e + bg : e) > s.maxTurnUsd,
			"reports the ceiling, the estimate and the action": (r: CostGuardDecision, _o: unknown, e: number, s: CostGuardSettings) => r.estUsd === e && r.thresholdUsd === s.maxTurnUsd && r.action === s.action,
			"background refunds never lower the total": (r: CostGuardDecision, _o: unknown, e: number, _s: CostGuardSettings, bg?: number) => r.totalUsd >= e && r.backgroundUsd >= 0 && (bg === undefined || r.backgroundUsd >= bg),
		},
		gen: (g) => [Math.abs(g.num()), { enabled: g.bool(), maxTurnUsd: g.pick([0, 0.5, 1, 2, -1, 3]), action: g.pick(["warn", "downgrade"]) }, g.opt(() => g.num(), 0.7)],
	}),
	contract({
		name: "downgradeReasoning",
		target: downgradeReasoning,
		frame: "pure",
		ensures: {
			"never raises effort": (r: string, _o: unknown, c: string) => r === c || level(r) < level(c),
			"leaves unknown levels alone": (r: string, _o: unknown, c: string) => level(c) >= 0 || r === c,
			"steps only to a supported level": (r: string, _o: unknown, c: string, s?: readonly ReasoningLevel[]) => r === c || s === undefined || s.some((x) => x === r),
			"without a support list it is exactly one step": (r: string, _o: unknown, c: string, s?: readonly ReasoningLevel[]) => s !== undefined || level(c) < 1 || level(r) === level(c) - 1,
			"a step changes the effort the provider sees": (r: ReasoningLevel, _o: unknown, c: ReasoningLevel, s?: readonly ReasoningLevel[], m?: ReasoningEffortMap) =>
				r === c || s === undefined || level(c) < 0 || (m === undefined || m[r] === undefined ? r : m[r]) !== (m === undefined || m[c] === undefined ? c : m[c]),
		},
		gen: (g) => [g.pick([...LEVELS, "bogus"]), g.opt(() => g.subset(LEVELS) as any, 0.8), g.opt(() => g.partial(Object.fromEntries(LEVELS.map((l) => [l, (h: G) => h.pick([undefined, undefined, null, "low", "high", l])]))) as any)],
	}),
];
