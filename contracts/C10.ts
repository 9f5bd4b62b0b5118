import { exceededRiskBudgetFields, intersectRiskBudgets, parseRiskBudget, validateRiskBudget } from "../../repo/packages/coding-agent/src/core/orchestration/risk-budget.ts";
import type { RiskBudget } from "../../repo/packages/coding-agent/src/core/orchestration/contracts.ts";
import { contract } from "../engine/spec.ts";
import type { G } from "../engine/gen.ts";

type Bs = readonly RiskBudget[];
/** v is exactly the least value set by any of the budgets for the selected limit (undefined when none sets it) */
const least = (v: number | undefined, bs: Bs, get: (b: RiskBudget) => number | undefined): boolean =>
	bs.every((b) => get(b) === undefined || (v !== undefined && v <= get(b)!)) && (v === undefined || bs.some((b) => get(b) === v));
const okNum = (x: number | undefined): boolean => x === undefined || (Number.isFinite(x) && x >= 0);
const okInt = (x: number | undefined): boolean => x === undefined || (Number.isSafeInteger(x) && x >= 0);
const wellFormed = (b: RiskBudget): boolean =>
	okInt(b.maxTokens) && okInt(b.maxWallClockMs) && okInt(b.maxAttempts) && okInt(b.maxToolCalls) && okNum(b.maxCostUsd) && okNum(b.requireApprovalAboveCostUsd);
const genNum = (g: G) => g.pick([undefined, 0, 1, 2, 3, 5, 1.5, 100, Number.MAX_SAFE_INTEGER, g.nat()]) as number | undefined;
const genBudget = (g: G): RiskBudget => g.partial({ maxTokens: genNum, maxWallClockMs: genNum, maxCostUsd: genNum, maxAttempts: genNum, maxToolCalls: genNum, requireApprovalAboveCostUsd: genNum }) as RiskBudget;
const FIN = { maxTokens: "fin", maxWallClockMs: "fin", maxCostUsd: "fin", maxAttempts: "fin", maxToolCalls: "fin", requireApprovalAboveCostUsd: "fin" } as const;
const exceeded = (r: RiskBudget, a: RiskBudget, get: (b: RiskBudget) => number | undefined): boolean => get(r) !== undefined && get(a) !== undefined && get(r)! > get(a)!;

export const contracts = [
	contract({
		name: "intersectRiskBudgets",
		target: intersectRiskBudgets,
		frame: "pure",
		refine: FIN,
		ensures: {
			"maxTokens is the least": (r: RiskBudget, _o: unknown, bs: Bs) => least(r.maxTokens, bs, (b) => b.maxTokens),
			"maxWallClockMs is the least": (r: RiskBudget, _o: unknown, bs: Bs) => least(r.maxWallClockMs, bs, (b) => b.maxWallClockMs),
			"maxAttempts is the least": (r: RiskBudget, _o: unknown, bs: Bs) => least(r.maxAttempts, bs, (b) => b.maxAttempts),
			"maxToolCalls is the least": (r: RiskBudget, _o: unknown, bs: Bs) => least(r.maxToolCalls, bs, (b) => b.maxToolCalls),
			"the approval threshold is the least": (r: RiskBudget, _o: unknown, bs: Bs) => least(r.requireApprovalAboveCostUsd, bs, (b) => b.requireApprovalAboveCostUsd),
			"maxCostUsd is no larger than any cost limit": (r: RiskBudget, _o: unknown, bs: Bs) => bs.every((b) => b.maxCostUsd === undefined || (r.maxCostUsd !== undefined && r.maxCostUsd <= b.maxCostUsd)),
			"maxCostUsd is no larger than any approval threshold": (r: RiskBudget, _o: unknown, bs: Bs) => bs.every((b) => b.requireApprovalAboveCostUsd === undefined || (r.maxCostUsd !== undefined && r.maxCostUsd <= b.requireApprovalAboveCostUsd)),
			"maxCostUsd is a limit some input sets": (r: RiskBudget, _o: unknown, bs: Bs) => r.maxCostUsd === undefined || bs.some((b) => b.maxCostUsd === r.maxCostUsd || b.requireApprovalAboveCostUsd === r.maxCostUsd),
		},
		gen: (g) => g.array(genBudget),
	}),
	contract({
		name: "exceededRiskBudgetFields",
		target: exceededRiskBudgetFields,
		frame: "pure",
		refine: FIN,
		ensures: {
			"reports maxTokens exactly when exceeded": (r: string[], _o: unknown, q: RiskBudget, a: RiskBudget) => r.includes("maxTokens") === exceeded(q, a, (b) => b.maxTokens),
			"reports maxWallClockMs exactly when exceeded": (r: string[], _o: unknown, q: RiskBudget, a: RiskBudget) => r.includes("maxWallClockMs") === exceeded(q, a, (b) => b.maxWallClockMs),
			"reports maxCostUsd exactly when exceeded": (r: string[], _o: unknown, q: RiskBudget, a: RiskBudget) => r.includes("maxCostUsd") === exceeded(q, a, (b) => b.maxCostUsd),
			"reports maxAttempts exactly when exceeded": (r: string[], _o: unknown, q: RiskBudget, a: RiskBudget) => r.includes("maxAttempts") === exceeded(q, a, (b) => b.maxAttempts),
			"reports maxToolCalls exactly when exceeded": (r: string[], _o: unknown, q: RiskBudget, a: RiskBudget) => r.includes("maxToolCalls") === exceeded(q, a, (b) => b.maxToolCalls),
			"reports nothing else": (r: string[]) => r.every((f) => f === "maxTokens" || f === "maxWallClockMs" || f === "maxCostUsd" || f === "maxAttempts" || f === "maxToolCalls"),
		},
		gen: (g) => [genBudget(g), genBudget(g)],
	}),
	contract({
		name: "validateRiskBudget",
		target: validateRiskBudget,
		frame: "pure",
		mayThrow: true,
		ensures: { "an accepted budget is well formed": (_r: unknown, _o: unknown, b: RiskBudget) => wellFormed(b) },
		gen: (g) => [g.bool() ? genBudget(g) : { ...genBudget(g), [g.pick(["maxTokens", "maxCostUsd", "bogus"])]: g.pick([-1, Number.NaN, 1.5, Infinity, "x", null]) }, "b"],
	}),
	contract({
		name: "parseRiskBudget",
		target: parseRiskBudget,
		frame: "pure",
		mayThrow: true,
		ensures: { "a parsed budget is well formed": (r: RiskBudget) => wellFormed(r) },
		gen: (g) => [g.bool() ? genBudget(g) : g.pick([null, 1, [], "x", { ...genBudget(g), [g.pick(["maxTokens", "maxCostUsd", "bogus"])]: g.pick([-1, Number.NaN, 1.5, Infinity, "x", null]) }]), "b"],
	}),
];
