import { addAttemptUsage, attemptUsageFromGatewayUsage, providerUsageFromAttemptUsage, reconcileAttemptUsage, remainingTokenBudget, validateAttemptUsageSnapshot, validateProviderUsage } from "../../repo/packages/coding-agent/src/core/orchestration/attempt-usage.ts";
import type { AttemptUsageSnapshot } from "../../repo/packages/coding-agent/src/core/orchestration/contracts.ts";
import type { Usage } from "../../repo/packages/ai/src/index.ts";
import { contract } from "../engine/spec.ts";
import type { G } from "../engine/gen.ts";

type U = AttemptUsageSnapshot;
type GatewayUsage = { toolCalls: number; inputTokens: number; outputTokens: number; cacheReadTokens: number; cacheWriteTokens: number; totalTokens: number; costUsd: number; wallClockMs: number };
const cnt = (x: unknown): boolean => Number.isSafeInteger(x) && (x as number) >= 0;
const amt = (x: unknown): boolean => Number.isFinite(x) && (x as number) >= 0;
const ok = (u: U): boolean => cnt(u.toolCalls) && cnt(u.inputTokens) && cnt(u.outputTokens) && cnt(u.cacheReadTokens) && cnt(u.cacheWriteTokens) && cnt(u.totalTokens) && amt(u.costUsd) && amt(u.activeWallClockMs);
const equal = (a: U, b: U): boolean => a.toolCalls === b.toolCalls && a.inputTokens === b.inputTokens && a.outputTokens === b.outputTokens && a.cacheReadTokens === b.cacheReadTokens &&
	a.cacheWriteTokens === b.cacheWriteTokens && a.totalTokens === b.totalTokens && a.costUsd === b.costUsd && a.activeWallClockMs === b.activeWallClockMs;
const okGateway = (u: GatewayUsage): boolean => cnt(u.toolCalls) && cnt(u.inputTokens) && cnt(u.outputTokens) && cnt(u.cacheReadTokens) && cnt(u.cacheWriteTokens) && cnt(u.totalTokens) && amt(u.costUsd) && amt(u.wallClockMs);
const max = (a: number, b: number): number => (a > b ? a : b);

const num = (g: G) => (g.chance(0.93) ? g.pick([0, 1, 2, 7, g.nat(), 1000]) : g.pick([-1, Number.NaN, Infinity, 1.5, Number.MAX_SAFE_INTEGER, Number.MAX_SAFE_INTEGER + 1, "3" as any, undefined as any]));
const amount = (g: G) => (g.chance(0.93) ? g.pick([0, 1, 2, 7, 0.5, 0.25]) : g.pick([-1, Number.NaN, Infinity, -0.5]));
const usage = (g: G): U => ({ toolCalls: num(g), inputTokens: num(g), outputTokens: num(g), cacheReadTokens: num(g), cacheWriteTokens: num(g), totalTokens: num(g), costUsd: amount(g), activeWallClockMs: amount(g) });
const gw = (g: G): GatewayUsage => { const { activeWallClockMs, ...r } = usage(g); return { ...r, wallClockMs: activeWallClockMs }; };
const provider = (g: G): any => {
	const u: any = { input: num(g), output: num(g), cacheRead: num(g), cacheWrite: num(g), totalTokens: num(g), cost: { input: amount(g), output: amount(g), cacheRead: amount(g), cacheWrite: amount(g), total: amount(g) } };
	if (g.chance(0.1)) delete u[g.pick(Object.keys(u))];
	if (g.chance(0.1)) delete (u.cost ?? {})[g.pick(["input", "total"])];
	if (g.chance(0.1)) u.extra = 1;
	if (g.chance(0.05)) return g.pick([null, 3, [], "x"]);
	return u;
};

export const contracts = [
	contract({
		name: "validateAttemptUsageSnapshot", target: validateAttemptUsageSnapshot, frame: "pure",
		mayThrow: (u: U) => !ok(u),
		ensures: { "accepts only well-formed counters": (_r: U, _o: unknown, u: U) => ok(u), "returns the same counters": (r: U, _o: unknown, u: U) => equal(r, u), "returns a detached copy": (r: U, _o: unknown, u: U) => r !== u },
		gen: (g) => [usage(g)],
	}),
	contract({
		name: "attemptUsageFromGatewayUsage", target: attemptUsageFromGatewayUsage, frame: "pure",
		mayThrow: (u: GatewayUsage) => !okGateway(u),
		ensures: {
			"accepts only well-formed counters": (_r: U, _o: unknown, u: GatewayUsage) => okGateway(u),
			"every counter is preserved": (r: U, _o: unknown, u: GatewayUsage) => r.toolCalls === u.toolCalls && r.inputTokens === u.inputTokens && r.outputTokens === u.outputTokens && r.cacheReadTokens === u.cacheReadTokens &&
				r.cacheWriteTokens === u.cacheWriteTokens && r.totalTokens === u.totalTokens && r.costUsd === u.costUsd && r.activeWallClockMs === u.wallClockMs,
		},
		gen: (g) => [gw(g)],
	}),
	contract({
		name: "addAttemptUsage", target: addAttemptUsage, frame: "pure", mayThrow: true,
		ensures: {
			"accepts only well-formed counters": (r: U, _o: unknown, a: U, b: U) => ok(a) && ok(b) && ok(r),
			"every counter is the sum": (r: U, _o: unknown, a: U, b: U) => r.toolCalls === a.toolCalls + b.toolCalls && r.inputTokens === a.inputTokens + b.inputTokens && r.outputTokens === a.outputTokens + b.outputTokens &&
				r.cacheReadTokens === a.cacheReadTokens + b.cacheReadTokens && r.cacheWriteTokens === a.cacheWriteTokens + b.cacheWriteTokens && r.totalTokens === a.totalTokens + b.totalTokens &&
				r.costUsd === a.costUsd + b.costUsd && r.activeWallClockMs === a.activeWallClockMs + b.activeWallClockMs,
			"no counter decreases": (r: U, _o: unknown, a: U) => r.toolCalls >= a.toolCalls && r.totalTokens >= a.totalTokens && r.costUsd >= a.costUsd && r.inputTokens >= a.inputTokens && r.outputTokens >= a.outputTokens,
		},
		gen: (g) => [usage(g), usage(g)],
	}),
	contract({
		name: "reconcileAttemptUsage", target: reconcileAttemptUsage, frame: "pure",
		mayThrow: (a: U, b: U) => !ok(a) || !ok(b),
		ensures: {
			"accepts only well-formed counters": (_r: U, _o: unknown, a: U, b: U) => ok(a) && ok(b),
			"every counter is the larger one": (r: U, _o: unknown, a: U, b: U) => r.toolCalls === max(a.toolCalls, b.toolCalls) && r.inputTokens === max(a.inputTokens, b.inputTokens) && r.outputTokens === max(a.outputTokens, b.outputTokens) &&
				r.cacheReadTokens === max(a.cacheReadTokens, b.cacheReadTokens) && r.cacheWriteTokens === max(a.cacheWriteTokens, b.cacheWriteTokens) && r.totalTokens === max(a.totalTokens, b.totalTokens) &&
				r.costUsd === max(a.costUsd, b.costUsd) && r.activeWallClockMs === max(a.activeWallClockMs, b.activeWallClockMs),
		},
		gen: (g) => [usage(g), usage(g)],
	}),
	contract({
		name: "remainingTokenBudget", target: remainingTokenBudget, frame: "pure",
		requires: (m: number | undefined, u: U) => cnt(u.totalTokens) && (m === undefined || Number.isFinite(m)),
		ensures: {
			"unlimited exactly when no maximum is set": (r: number | undefined, _o: unknown, m: number | undefined) => (r === undefined) === (m === undefined),
			"never negative and exact": (r: number | undefined, _o: unknown, m: number | undefined, u: U) => r === undefined || m === undefined || (r >= 0 && r === max(0, m - u.totalTokens)),
		},
		gen: (g) => [g.pick([undefined, 0, 5, 100, g.nat()]), { ...usage(g), totalTokens: g.nat() }],
	}),
	contract({
		name: "providerUsageFromAttemptUsage", target: providerUsageFromAttemptUsage, frame: "pure",
		mayThrow: (u: U) => !ok(u),
		ensures: {
			"every counter is preserved": (r: Usage, _o: unknown, u: U) => r.input === u.inputTokens && r.output === u.outputTokens && r.cacheRead === u.cacheReadTokens && r.cacheWrite === u.cacheWriteTokens && r.totalTokens === u.totalTokens && r.cost.total === u.costUsd,
			"accepts only well-formed counters": (_r: Usage, _o: unknown, u: U) => ok(u),
		},
		gen: (g) => [usage(g)],
	}),
	contract({
		name: "validateProviderUsage", target: validateProviderUsage, frame: "pure", mayThrow: true,
		ensures: {
			"accepted counters are well formed": (r: Usage) => cnt(r.input) && cnt(r.output) && cnt(r.cacheRead) && cnt(r.cacheWrite) && cnt(r.totalTokens) && amt(r.cost.input) && amt(r.cost.output) && amt(r.cost.cacheRead) && amt(r.cost.cacheWrite) && amt(r.cost.total),
			"every counter is preserved": (r: Usage, _o: unknown, v: any) => r.input === v.input && r.output === v.output && r.cacheRead === v.cacheRead && r.cacheWrite === v.cacheWrite && r.totalTokens === v.totalTokens && r.cost.input === v.cost.input && r.cost.output === v.cost.output && r.cost.cacheRead === v.cost.cacheRead && r.cost.cacheWrite === v.cost.cacheWrite && r.cost.total === v.cost.total,
		},
		gen: (g) => [provider(g)],
	}),
];
