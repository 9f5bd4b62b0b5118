import { DEFAULT_WORKER_FLEET_LIMITS, evaluateNewWorkerAdmission, intersectWorkerDelegationLimits, resolveWorkerFleetLimits, workerQueueHasCapacity } from "../../repo/packages/coding-agent/src/core/delegation/worker-fleet-limits.ts";
import type { NewWorkerAdmission, WorkerFleetLimits } from "../../repo/packages/coding-agent/src/core/delegation/worker-fleet-limits.ts";
import type { AgentBindingContract, OrchestrationDelegationLimits } from "../../repo/packages/coding-agent/src/core/orchestration/contracts.ts";
import { contract, countTo } from "../engine/spec.ts";
import type { G } from "../engine/gen.ts";

type D = OrchestrationDelegationLimits | undefined;
type Agents = Readonly<Record<string, AgentBindingContract>>;
const REF = { maxDepth: "int", maxChildrenPerAgent: "int", maxNestedAgentsPerSession: "int", maxAgentsPerSession: "int", maxQueuedDispatches: "int", depth: "int" } as const;
const lim = (g: G) => g.pick([0, 1, 2, 3, 5, 8, 64, 100, 1000]);
const genD = (g: G): any => g.opt(() => g.partial({ maxDepth: (h) => h.opt(() => lim(h), 0.8), maxChildrenPerAgent: (h) => h.opt(() => lim(h), 0.8), maxNestedAgentsPerSession: (h) => h.opt(() => lim(h), 0.8) }), 0.8);
const small = (g: G) => g.pick([0, 1, 2, 3, 4, 5, 6]);
const genLimits = (g: G): any => ({ maxDepth: g.int(0, 3), maxAgentsPerSession: g.int(0, 9), maxChildrenPerAgent: small(g), maxNestedAgentsPerSession: small(g), maxQueuedDispatches: g.int(0, 5) });
const genAgents = (g: G): any => {
	const r: any = {};
	const n = g.int(0, 6);
	for (let i = 0; i < n; i++) { const id = g.pick(["a", "b", "c", "d", "e", "f"]); r[id] = { agentId: g.chance(0.95) ? id : "a", parentAgentId: g.pick([undefined, "a", "a", "b", "c", "", "zz"]), depth: g.int(0, 3), status: g.pick(["active", "idle", "retired"]) }; }
	return r;
};
const capped = (r: number, a: number | undefined, cap: number) => r <= cap && (a === undefined || r <= a) && r >= (a === undefined ? cap : a <= cap ? a : cap);
/** direct children, retired or not */
const kids = (agents: Agents, id: string | undefined): number => countTo(Object.values(agents), Object.keys(agents).length, (a) => a.parentAgentId === id);
const nested = (agents: Agents): number => countTo(Object.values(agents), Object.keys(agents).length, (a) => !!a.parentAgentId && a.status !== "retired");

export const contracts = [
	contract({
		name: "resolveWorkerFleetLimits",
		target: resolveWorkerFleetLimits,
		frame: "pure",
		refine: REF,
		ensures: {
			"depth is the requested limit inside the host ceiling": (r: WorkerFleetLimits, _o: unknown, d: D) => capped(r.maxDepth, d?.maxDepth, DEFAULT_WORKER_FLEET_LIMITS.maxDepth),
			"children are the requested limit inside the host ceiling": (r: WorkerFleetLimits, _o: unknown, d: D) => capped(r.maxChildrenPerAgent, d?.maxChildrenPerAgent, DEFAULT_WORKER_FLEET_LIMITS.maxChildrenPerAgent),
			"nested agents are the requested limit inside the host ceiling": (r: WorkerFleetLimits, _o: unknown, d: D) => capped(r.maxNestedAgentsPerSession, d?.maxNestedAgentsPerSession, DEFAULT_WORKER_FLEET_LIMITS.maxNestedAgentsPerSession),
			"session and queue ceilings are the host's": (r: WorkerFleetLimits) => r.maxAgentsPerSession === DEFAULT_WORKER_FLEET_LIMITS.maxAgentsPerSession && r.maxQueuedDispatches === DEFAULT_WORKER_FLEET_LIMITS.maxQueuedDispatches,
		},
		gen: (g) => [genD(g)],
	}),
	contract({
		name: "intersectWorkerDelegationLimits",
		target: intersectWorkerDelegationLimits,
		frame: "pure",
		refine: REF,
		ensures: {
			"unlimited only when neither side limits": (r: D, _o: unknown, a: D, b: D) => (r === undefined) === (a === undefined && b === undefined),
			"never deeper than either side": (r: D, _o: unknown, a: D, b: D) => r === undefined || (r.maxDepth !== undefined && (a?.maxDepth === undefined || r.maxDepth <= a.maxDepth) && (b?.maxDepth === undefined || r.maxDepth <= b.maxDepth) && r.maxDepth <= DEFAULT_WORKER_FLEET_LIMITS.maxDepth),
			"never more children than either side": (r: D, _o: unknown, a: D, b: D) => r === undefined || (r.maxChildrenPerAgent !== undefined && (a?.maxChildrenPerAgent === undefined || r.maxChildrenPerAgent <= a.maxChildrenPerAgent) && (b?.maxChildrenPerAgent === undefined || r.maxChildrenPerAgent <= b.maxChildrenPerAgent) && r.maxChildrenPerAgent <= DEFAULT_WORKER_FLEET_LIMITS.maxChildrenPerAgent),
			"never more nested agents than either side": (r: D, _o: unknown, a: D, b: D) => r === undefined || (r.maxNestedAgentsPerSession !== undefined && (a?.maxNestedAgentsPerSession === undefined || r.maxNestedAgentsPerSession <= a.maxNestedAgentsPerSession) && (b?.maxNestedAgentsPerSession === undefined || r.maxNestedAgentsPerSession <= b.maxNestedAgentsPerSession) && r.maxNestedAgentsPerSession <= DEFAULT_WORKER_FLEET_LIMITS.maxNestedAgentsPerSession),
		},
		gen: (g) => [genD(g), genD(g)],
	}),
	contract({
		name: "evaluateNewWorkerAdmission",
		target: evaluateNewWorkerAdmission,
		frame: "pure",
		refine: REF,
		mayThrow: (_a: Agents, _p: unknown, _l: unknown, slots?: number) => slots !== undefined && !(Number.isSafeInteger(slots) && slots >= 1),
		mustThrow: (_a: Agents, _p: unknown, _l: unknown, slots?: number) => slots !== undefined && !(Number.isSafeInteger(slots) && slots >= 1),
		ensures: {
			"an admitted worker fits the session": (r: NewWorkerAdmission, _o: unknown, agents: Agents, _p?: string, l?: WorkerFleetLimits, slots?: number) =>
				!r.ok || Object.keys(agents).length + (slots ?? 1) <= (l ?? DEFAULT_WORKER_FLEET_LIMITS).maxAgentsPerSession,
			"a root worker has depth 0": (r: NewWorkerAdmission, _o: unknown, _agents: Agents, p?: string) => !r.ok || !!p || r.depth === 0,
			"an admitted child has a live known parent and one more level": (r: NewWorkerAdmission, _o: unknown, agents: Agents, p?: string) =>
				!r.ok || !p || (agents[p] !== undefined && agents[p].status !== "retired" && r.depth === agents[p].depth + 1),
			"an admitted child is within the depth limit": (r: NewWorkerAdmission, _o: unknown, _agents: Agents, p?: string, l?: WorkerFleetLimits) => !r.ok || !p || r.depth <= (l ?? DEFAULT_WORKER_FLEET_LIMITS).maxDepth,
			"an admitted child's parent has a free child slot": (r: NewWorkerAdmission, _o: unknown, agents: Agents, p?: string, l?: WorkerFleetLimits) =>
				!r.ok || !p || kids(agents, agents[p]?.agentId) < (l ?? DEFAULT_WORKER_FLEET_LIMITS).maxChildrenPerAgent,
			"an admitted child fits the live nested fleet": (r: NewWorkerAdmission, _o: unknown, agents: Agents, p?: string, l?: WorkerFleetLimits) =>
				!r.ok || !p || nested(agents) < (l ?? DEFAULT_WORKER_FLEET_LIMITS).maxNestedAgentsPerSession,
			"a refusal for the child limit is real": (r: NewWorkerAdmission, _o: unknown, agents: Agents, p?: string, l?: WorkerFleetLimits) =>
				r.ok || r.reasonCode !== "worker_agent_child_limit_reached" || kids(agents, agents[p!]?.agentId) >= (l ?? DEFAULT_WORKER_FLEET_LIMITS).maxChildrenPerAgent,
			"a refusal for the nested limit is real": (r: NewWorkerAdmission, _o: unknown, agents: Agents, p?: string, l?: WorkerFleetLimits) =>
				r.ok || r.reasonCode !== "worker_agent_nested_session_limit_reached" || nested(agents) >= (l ?? DEFAULT_WORKER_FLEET_LIMITS).maxNestedAgentsPerSession,
		},
		gen: (g) => [genAgents(g), g.pick([undefined, "a", "a", "b", "c", "zz", ""]), g.opt(() => genLimits(g), 0.9), g.opt(() => g.pick([1, 1, 2, 3, 0, -1, 1.5]), 0.6)],
	}),
	contract({
		name: "workerQueueHasCapacity",
		target: workerQueueHasCapacity,
		frame: "pure",
		refine: REF,
		ensures: {
			"accepts only inside the queue ceiling": (r: boolean, _o: unknown, n: number, _p: boolean, l?: WorkerFleetLimits) => !r || n < (l ?? DEFAULT_WORKER_FLEET_LIMITS).maxQueuedDispatches,
			"keeps one slot for a verifier": (r: boolean, _o: unknown, n: number, p: boolean, l?: WorkerFleetLimits) => !r || p || n < (l ?? DEFAULT_WORKER_FLEET_LIMITS).maxQueuedDispatches - 1,
			"rejects malformed counts": (r: boolean, _o: unknown, n: number) => !r || (Number.isSafeInteger(n) && n >= 0),
			"a verifier is refused only at the ceiling": (r: boolean, _o: unknown, n: number, p: boolean, l?: WorkerFleetLimits) => r || !p || !(Number.isSafeInteger(n) && n >= 0) || n >= (l ?? DEFAULT_WORKER_FLEET_LIMITS).maxQueuedDispatches,
		},
		gen: (g) => [g.pick([0, 1, 2, 3, 4, 5, -1, 1.5, 254, 255, 256]), g.bool(), g.opt(() => genLimits(g), 0.8)],
	}),
];
