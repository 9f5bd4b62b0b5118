import { UndoStack } from "../../repo/packages/tui/src/undo-stack.ts";
import { KillRing } from "../../repo/packages/tui/src/kill-ring.ts";
import { deserialize, serialize } from "node:v8";
import { contract, forallInt, internal, sumTo } from "../engine/spec.ts";
import type { G } from "../engine/gen.ts";

interface Entry { state: unknown; bytes: number }
interface Undo { stack: Entry[]; totalBytes: number; maxEntries: number; maxBytes: number }
const EXT = { serialize: { kind: "pure" }, deserialize: { kind: "pure" } } as const;
const FIN = { bytes: "nat", totalBytes: "int", maxEntries: "int", maxBytes: "int", byteLength: "nat" } as const;
const sized = (u: Undo): boolean => u.totalBytes === sumTo(u.stack, u.stack.length, (x) => x.bytes);
const within = (u: Undo): boolean => u.stack.length <= u.maxEntries && u.totalBytes <= u.maxBytes;
const limits = (u: { maxEntries: number; maxBytes: number }): boolean => u.maxEntries >= 1 && u.maxBytes >= 1;
const genUndo = (g: G): UndoStack<unknown> => {
	const u = new UndoStack<unknown>(g.int(1, 4), g.pick([1, 8, 10, 20, 30, 40, 1000]));
	for (let i = g.int(0, 6); i > 0; i--) u.push("x".repeat(g.int(0, 12)));
	return u;
};
const snap = (u: Undo) => ({ items: [...u.stack], n: u.stack.length, bytes: u.totalBytes });
type Old = ReturnType<typeof snap>;

export const contracts = [
	contract({
		name: "UndoStack.push",
		target: UndoStack.prototype.push,
		ext: EXT,
		refine: FIN,
		requires: (u: Undo) => limits(u) && sized(u) && within(u),
		pre: snap,
		invariants: {
			"sized": (e: any) => e.this.totalBytes === sumTo(e.this.stack, e.this.stack.length, (x: Entry) => x.bytes),
		},
		ensures: {
			"the recorded size is the size of what is held": (_r: unknown, _o: Old, u: Undo) => sized(u),
			"both limits hold": (_r: unknown, _o: Old, u: Undo) => within(u),
		},
		gen: (g) => [genUndo(g), "y".repeat(g.int(0, 30))],
	}),
];
void deserialize; void serialize; void KillRing; void forallInt; void internal;
