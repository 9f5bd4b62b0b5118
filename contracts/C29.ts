import { latestAgentAttemptByDurableOrder, latestAgentAttemptsByDurableOrder } from "../../repo/packages/coding-agent/src/core/orchestration/attempt-ordering.ts";
import type { AttemptRuntimeState, TaskRuntimeProjection } from "../../repo/packages/coding-agent/src/core/orchestration/task-runtime.ts";
import { contract } from "../engine/spec.ts";
import type { G } from "../engine/gen.ts";

type Snap = Pick<TaskRuntimeProjection, "agents" | "attempts">;
type M = Map<string, AttemptRuntimeState>;
const agentOf = (a: AttemptRuntimeState): string | undefined => a.agentId ?? a.dispatch.logicalLaneId;
/** the attempt the agent is bound to, when it exists */
const active = (s: Snap, id: string): AttemptRuntimeState | undefined => { const a = s.agents[id]; return a === undefined || !a.activeAttemptId ? undefined : s.attempts[a.activeAttemptId]; };
/** the last attempt in insertion order that belongs to the agent */
const last = (s: Snap, id: string): AttemptRuntimeState | undefined => Object.values(s.attempts).findLast((a) => agentOf(a) === id);
const AG = ["a1", "a2", "a3"];
export const genSnapshot = (g: G): any => {
	const attempts: Record<string, any> = {};
	const n = g.int(0, 5);
	for (let i = 0; i < n; i++) attempts[`t${i}`] = { attemptId: `t${i}`, ...(g.chance(0.7) ? { agentId: g.pick(AG) } : {}), status: g.pick(["queued", "running", "succeeded", "suspended"]), dispatch: { ...(g.chance(0.5) ? { logicalLaneId: g.pick(AG) } : {}) } };
	const agents: Record<string, any> = {};
	for (const a of AG) if (g.chance(0.7)) agents[a] = { agentId: a, depth: 0, status: "idle", ...(g.chance(0.5) ? { activeAttemptId: g.pick(["t0", "t1", "t2", "t9"]) } : {}) };
	return { agents, attempts };
};
/** every agent record is stored under its own non-empty identity (an invariant of the projection) */
const keyed = (s: Snap): boolean => Object.entries(s.agents).every(([k, a]) => a.agentId === k && k !== "");

export const contracts = [
	contract({
		name: "latestAgentAttemptsByDurableOrder",
		target: latestAgentAttemptsByDurableOrder,
		frame: "pure",
		requires: keyed,
		ensures: {
			"a bound agent's latest attempt is the one it is bound to": (r: M, _o: unknown, s: Snap) => Object.entries(s.agents).every(([k, a]) => active(s, k) === undefined || r.get(k) === active(s, k)),
			"an unbound agent's latest attempt is its last one in durable order": (r: M, _o: unknown, s: Snap) => Object.entries(s.agents).every(([k]) => active(s, k) !== undefined || r.get(k) === last(s, k)),
			"only known agents have a latest attempt": (r: M, _o: unknown, s: Snap) => [...r.keys()].every((k) => s.agents[k] !== undefined),
		},
		invariants: {
			"scan: latest so far": ({ snapshot, latest, $i }: { snapshot: Snap; latest: M; $i: number }) => Object.entries(snapshot.agents).every(([k]) => latest.get(k) === Object.values(snapshot.attempts).findLast((a, j) => j < $i && agentOf(a) === k)),
			"scan: only known agents": ({ snapshot, latest }: { snapshot: Snap; latest: M }) => [...latest.keys()].every((k) => snapshot.agents[k] !== undefined),
			"bindings: bound agents so far": ({ snapshot, latest, $i }: { snapshot: Snap; latest: M; $i: number }) => Object.entries(snapshot.agents).every(([k], j) => (j < $i && active(snapshot, k) !== undefined ? latest.get(k) === active(snapshot, k) : latest.get(k) === last(snapshot, k))),
		},
		gen: (g) => [genSnapshot(g)],
	}),
	contract({
		name: "latestAgentAttemptByDurableOrder",
		target: latestAgentAttemptByDurableOrder,
		frame: "pure",
		ext: { latestAgentAttemptsByDurableOrder: { kind: "pure" } },
		ensures: { "one agent's entry of the projection": (r: AttemptRuntimeState | undefined, _o: unknown, s: Snap, id: string) => r === latestAgentAttemptsByDurableOrder(s).get(id) },
		gen: (g) => [genSnapshot(g), g.pick(AG)],
	}),
];
