import { CapabilityGateway, budgetedTokens } from "../../repo/packages/coding-agent/src/core/orchestration/capability-gateway.ts";
import { validateAttemptUsageSnapshot } from "../../repo/packages/coding-agent/src/core/orchestration/attempt-usage.ts";
import { contract, internal, ghostCount } from "../engine/spec.ts";
import { EXT, FIN, genGateway, type GW } from "./C07.ts";
import type { G } from "../engine/gen.ts";

type Delta = { inputTokens?: number; outputTokens?: number; cacheReadTokens?: number; cacheWriteTokens?: number; totalTokens?: number; costUsd?: number };
type Usage = { toolCalls: number; inputTokens: number; outputTokens: number; cacheReadTokens: number; cacheWriteTokens: number; totalTokens: number; costUsd: number };
const FILE = "packages/coding-agent/src/core/orchestration/capability-gateway.ts";
const snap = (g: GW): Usage => ({ toolCalls: g.toolCalls, inputTokens: g.inputTokens, outputTokens: g.outputTokens, cacheReadTokens: g.cacheReadTokens, cacheWriteTokens: g.cacheWriteTokens, totalTokens: g.totalTokens, costUsd: g.costUsd });
const count = (n: number | undefined): boolean => n === undefined || (Number.isSafeInteger(n) && n >= 0);
const formed = (d: Delta): boolean => count(d.inputTokens) && count(d.outputTokens) && count(d.cacheReadTokens) && count(d.cacheWriteTokens) && count(d.totalTokens) && (d.costUsd === undefined || (Number.isFinite(d.costUsd) && d.costUsd >= 0));
const parts = (d: Delta): number => (d.inputTokens ?? 0) + (d.outputTokens ?? 0) + (d.cacheReadTokens ?? 0) + (d.cacheWriteTokens ?? 0);
const wall = (g: GW, now: number): number => g.initialWallClockMs + Math.max(0, now - g.startedAt);
const exhausted = (g: GW, ms: number): boolean => {
	const b = g.grant.budget;
	return (b.maxToolCalls !== undefined && g.toolCalls >= b.maxToolCalls) || (b.maxTokens !== undefined && budgetedTokens(g) >= b.maxTokens) || (b.maxCostUsd !== undefined && g.costUsd >= b.maxCostUsd) || (b.maxWallClockMs !== undefined && ms >= b.maxWallClockMs);
};
/** what every gateway maintains: counts are safe and non-negative, the cost is finite and non-negative */
const sane = (g: GW): boolean => safe(g.toolCalls) && safe(g.inputTokens) && safe(g.outputTokens) && safe(g.cacheReadTokens) && safe(g.cacheWriteTokens) && safe(g.totalTokens) && Number.isFinite(g.costUsd) && g.costUsd >= 0;
const safe = (n: number): boolean => Number.isSafeInteger(n) && n >= 0;
const added = (o: Usage, g: GW, d: Delta): boolean =>
	g.inputTokens === o.inputTokens + (d.inputTokens ?? 0) && g.outputTokens === o.outputTokens + (d.outputTokens ?? 0) && g.cacheReadTokens === o.cacheReadTokens + (d.cacheReadTokens ?? 0) && g.cacheWriteTokens === o.cacheWriteTokens + (d.cacheWriteTokens ?? 0) && g.totalTokens === o.totalTokens + (d.totalTokens ?? parts(d)) && g.costUsd === o.costUsd + (d.costUsd ?? 0);
const unchanged = (o: Usage, g: GW): boolean =>
	g.toolCalls === o.toolCalls && g.inputTokens === o.inputTokens && g.outputTokens === o.outputTokens && g.cacheReadTokens === o.cacheReadTokens && g.cacheWriteTokens === o.cacheWriteTokens && g.totalTokens === o.totalTokens && g.costUsd === o.costUsd;
const genNum = (g: G): any => g.pick([0, 0, 1, 2, 3, 7, 50, -1, 0.5, Number.NaN, Number.POSITIVE_INFINITY, Number.MAX_SAFE_INTEGER, 9007199254740000]);
const genGood = (g: G): any => g.pick([0, 1, 2, 3, 7, 50]);
const genDelta = (g: G): any => { const n = g.chance(0.6) ? genGood : genNum; return g.partial({ inputTokens: n, outputTokens: n, cacheReadTokens: n, cacheWriteTokens: n, totalTokens: n, costUsd: g.chance(0.5) ? n : (x: G) => x.pick([0.5, 0.01, 0]) }); };
const SHARED = { ...EXT, remainingTokens: { kind: "pure" }, ".reserveProviderBudget": { kind: "havoc", throws: true, effect: "reserved" } } as const;

export const contracts = [
	contract({
		name: "validatedUsageDelta",
		target: internal(FILE, "validatedUsageDelta"),
		frame: "pure",
		mustThrow: (d: Delta) => !formed(d),
		mayThrow: true,
		ensures: {
			"every report is a count or a finite cost": (r: Required<Delta>) => formed(r),
			"absent amounts are zero": (r: Required<Delta>, _o: unknown, d: Delta) => r.inputTokens === (d.inputTokens ?? 0) && r.outputTokens === (d.outputTokens ?? 0) && r.cacheReadTokens === (d.cacheReadTokens ?? 0) && r.cacheWriteTokens === (d.cacheWriteTokens ?? 0) && r.costUsd === (d.costUsd ?? 0),
			"the total defaults to the sum": (r: Required<Delta>, _o: unknown, d: Delta) => r.totalTokens === (d.totalTokens ?? parts(d)),
		},
		gen: (g) => [genDelta(g)],
	}),
	contract({
		name: "CapabilityGateway.recordUsage",
		target: CapabilityGateway.prototype.recordUsage,
		ext: EXT,
		requires: (g: GW, d: Delta) => sane(g) && (d as unknown) !== g,
		pre: (g: GW) => snap(g),
		mayThrow: true,
		mustThrow: (_g: GW, d: Delta) => !formed(d),
		ensures: {
			"exactly the reported amounts are added": (_r: unknown, o: Usage, g: GW, d: Delta) => added(o, g, d),
			"no call is counted": (_r: unknown, o: Usage, g: GW) => g.toolCalls === o.toolCalls,
			"usage never decreases": (_r: unknown, o: Usage, g: GW) => g.inputTokens >= o.inputTokens && g.outputTokens >= o.outputTokens && g.cacheReadTokens >= o.cacheReadTokens && g.cacheWriteTokens >= o.cacheWriteTokens && g.totalTokens >= o.totalTokens && g.costUsd >= o.costUsd,
			"charged tokens never decrease when totals cover their details": (_r: unknown, o: Usage, g: GW, d: Delta) => (d.totalTokens !== undefined && d.totalTokens < parts(d)) || budgetedTokens(g) >= budgetedTokens(o),
			"recorded usage stays well formed": (_r: unknown, _o: unknown, g: GW) => sane(g),
		},
		onThrow: {
			"a report is recorded whole or not at all": (o: Usage, g: GW, d: Delta) => unchanged(o, g) || (formed(d) && g.toolCalls === o.toolCalls && added(o, g, d)),
			"a malformed report changes nothing": (o: Usage, g: GW, d: Delta) => formed(d) || unchanged(o, g),
			"a malformed report never reaches the shared budget": (_o: unknown, _g: GW, d: Delta) => formed(d) || ghostCount("shared") === 0,
		},
		gen: (g) => [genGateway(g), genDelta(g)],
	}),
	contract({
		name: "budgetedTokens",
		target: budgetedTokens,
		frame: "pure",
		refine: FIN,
		ensures: {
			"uncached tokens are charged in full": (r: number, _o: unknown, u: Usage) => r >= u.inputTokens + u.outputTokens + u.cacheWriteTokens,
			"unattributed tokens are charged in full": (r: number, _o: unknown, u: Usage) => r >= u.totalTokens - u.cacheReadTokens,
			"cache reads are charged a tenth, rounded up": (r: number, _o: unknown, u: Usage) => r === Math.max(u.inputTokens + u.outputTokens + u.cacheWriteTokens, u.totalTokens - u.cacheReadTokens) + Math.ceil(u.cacheReadTokens * 0.1),
		},
		gen: (g) => [{ inputTokens: genGood(g), outputTokens: genGood(g), cacheReadTokens: genGood(g), cacheWriteTokens: genGood(g), totalTokens: g.pick([0, 1, 10, 100, 500]) }],
	}),
	contract({
		name: "CapabilityGateway.enforceBudget",
		target: internal(FILE, "CapabilityGateway.enforceBudget"),
		ext: EXT,
		refine: FIN,
		pre: (g: GW) => snap(g),
		mayThrow: true,
		mustThrow: (g: GW, _s: string, ms: number) => exhausted(g, ms),
		ensures: { "no budget is exhausted": (_r: unknown, _o: unknown, g: GW, _s: string, ms: number) => !exhausted(g, ms) },
		onThrow: { "a refusal changes no usage": (o: Usage, g: GW) => g.toolCalls === o.toolCalls && g.inputTokens === o.inputTokens && g.totalTokens === o.totalTokens && g.costUsd === o.costUsd },
		gen: (g) => [genGateway(g), "t", g.pick([0, 1, 2, 5, 10, 99, 100])],
	}),
	contract({
		name: "CapabilityGateway.assertBudgetAvailable",
		target: CapabilityGateway.prototype.assertBudgetAvailable,
		ext: EXT,
		refine: FIN,
		pre: (g: GW) => ({ now: g.now() }),
		mayThrow: true,
		mustThrow: (g: GW) => exhausted(g, wall(g, g.now())),
		ensures: { "no budget is exhausted": (_r: unknown, o: { now: number }, g: GW) => !exhausted(g, wall(g, o.now)) },
		gen: (g) => [genGateway(g), "t"],
	}),
	contract({
		name: "CapabilityGateway.remainingAttemptTokenBudget",
		target: CapabilityGateway.prototype.remainingAttemptTokenBudget,
		ext: EXT,
		refine: FIN,
		mayThrow: true,
		frame: "pure",
		ensures: {
			"the remainder is what was granted less what was recorded": (r: number | undefined, _o: unknown, g: GW) => (g.grant.budget.maxTokens === undefined ? r === undefined : Number.isNaN(g.grant.budget.maxTokens) || r === Math.max(0, g.grant.budget.maxTokens - budgetedTokens(g))),
			"never negative": (r: number | undefined) => r === undefined || !(r < 0),
		},
		gen: (g) => [genGateway(g)],
	}),
	contract({
		name: "CapabilityGateway.remainingTokenBudget",
		target: CapabilityGateway.prototype.remainingTokenBudget,
		ext: SHARED,
		refine: FIN,
		mayThrow: true,
		ensures: {
			"never more than the attempt has left": (r: number | undefined, _o: unknown, g: GW) => g.grant.budget.maxTokens === undefined || (r !== undefined && !(r > Math.max(0, g.grant.budget.maxTokens - budgetedTokens(g)))),
		},
		gen: (g) => [genGateway(g)],
	}),
	contract({
		name: "CapabilityGateway.reserveProviderBudget",
		target: CapabilityGateway.prototype.reserveProviderBudget,
		ext: SHARED,
		refine: FIN,
		pre: (g: GW) => ({ now: g.now() }),
		mayThrow: true,
		mustThrow: (g: GW, n: number) => !Number.isSafeInteger(n) || n <= 0 || exhausted(g, wall(g, g.now())),
		ensures: {
			"no more than requested or left is reserved": (r: { maxTokens: number }, _o: unknown, g: GW, n: number) => ghostCount("reserved") === 1 || Number.isNaN(g.grant.budget.maxTokens) || (r.maxTokens > 0 && r.maxTokens <= n && (g.grant.budget.maxTokens === undefined || r.maxTokens <= g.grant.budget.maxTokens - budgetedTokens(g))),
		},
		gen: (g) => [genGateway(g), g.pick([1, 2, 5, 50, 0, -1, 0.5, Number.NaN]), "p"],
	}),
	contract({
		name: "validateAttemptUsageSnapshot",
		target: validateAttemptUsageSnapshot,
		frame: "pure",
		mayThrow: true,
		ensures: {
			"an accepted snapshot has only safe counts and finite amounts": (_r: unknown, _o: unknown, u: any) => Number.isSafeInteger(u.toolCalls) && u.toolCalls >= 0 && Number.isSafeInteger(u.inputTokens) && u.inputTokens >= 0 && Number.isSafeInteger(u.outputTokens) && u.outputTokens >= 0 && Number.isSafeInteger(u.cacheReadTokens) && u.cacheReadTokens >= 0 && Number.isSafeInteger(u.cacheWriteTokens) && u.cacheWriteTokens >= 0 && Number.isSafeInteger(u.totalTokens) && u.totalTokens >= 0 && Number.isFinite(u.costUsd) && u.costUsd >= 0 && Number.isFinite(u.activeWallClockMs) && u.activeWallClockMs >= 0,
		},
		gen: (g) => { const n = g.chance(0.5) ? genGood : genNum; return [{ toolCalls: n(g), inputTokens: n(g), outputTokens: n(g), cacheReadTokens: n(g), cacheWriteTokens: n(g), totalTokens: n(g), costUsd: n(g), activeWallClockMs: n(g) }]; },
	}),
];
