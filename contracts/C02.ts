import { combineGateOutcomes, fallbackGateOutcome } from "../../repo/packages/coding-agent/src/core/autonomy/gates.ts";
import type { GateOutcome } from "../../repo/packages/coding-agent/src/core/autonomy/contracts.ts";
import { contract } from "../engine/spec.ts";
import type { G } from "../engine/gen.ts";

function rank(kind: unknown): number {
	if (kind === "allow") return 0;
	if (kind === "downgrade") return 1;
	if (kind === "escalate") return 2;
	if (kind === "ask-user") return 3;
	return 4;
}
const known = (kind: unknown): boolean => kind === "allow" || kind === "downgrade" || kind === "escalate" || kind === "ask-user" || kind === "block";
const genOutcome = (g: G): GateOutcome => ({
	outcome: g.pick(["allow", "downgrade", "escalate", "ask-user", "block", "bogus", undefined]) as any,
	gate: g.str(), reasonCode: g.str(), message: g.pick(["", "m", undefined]) as any,
});

export const contracts = [
	contract({
		name: "combineGateOutcomes",
		target: combineGateOutcomes,
		frame: "pure",
		ensures: {
			"no verdict is weakened": (r: GateOutcome, _o: unknown, xs: readonly (Omit<GateOutcome, "outcome"> & { outcome: unknown })[]) => xs.every((x) => rank(x.outcome) <= rank(r.outcome)),
			"the verdict is a known kind": (r: GateOutcome) => known(r.outcome as unknown),
			"it comes from an input": (r: GateOutcome, _o: unknown, xs: readonly (Omit<GateOutcome, "outcome"> & { outcome: unknown })[]) =>
				xs.length === 0 || xs.some((x) => x.gate === r.gate && x.reasonCode === r.reasonCode && rank(x.outcome) === rank(r.outcome)),
			"nothing to combine asks the user": (r: GateOutcome, _o: unknown, xs: readonly unknown[]) => xs.length !== 0 || r.outcome === "ask-user",
		},
		invariants: {
			"winner is at least as strict as everything seen": ({ outcomes, maxPrecedence, $i }: { outcomes: readonly { outcome: unknown }[]; maxPrecedence: number; $i: number }) =>
				outcomes.every((x, j) => !(j <= $i) || rank(x.outcome) <= maxPrecedence),
			"winner's precedence is its own": ({ winner, maxPrecedence }: { winner: { outcome: unknown }; maxPrecedence: number }) => rank(winner.outcome) === maxPrecedence,
			"winner is an input": ({ outcomes, winner }: { outcomes: readonly GateOutcome[]; winner: GateOutcome }) => outcomes.some((x) => x === winner),
		},
		gen: (g) => [g.array(genOutcome)],
	}),
	contract({
		name: "fallbackGateOutcome",
		target: fallbackGateOutcome,
		frame: "pure",
		ensures: {
			"never an allow": (r: GateOutcome) => r.outcome === "ask-user" || r.outcome === "block",
			"irreversible operations are blocked": (r: GateOutcome, _o: unknown, a: { reversible: boolean }) => a.reversible || r.outcome === "block",
		},
		gen: (g) => [{ gate: g.str(), reversible: g.bool(), reasonCode: g.str() }],
	}),
];
