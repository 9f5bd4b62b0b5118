HOLD={"C29","C09"}
PENDING="No contract written yet for the functions it is anchored in."
COMMON=" Trusted: the VC generator in engine/, TypeScript's static types at function entry, exact-real arithmetic for finite numbers, the built-in models; the evidence file lists every assumption of the run."
NOTES={
"C02":"combineGateOutcomes and fallbackGateOutcome proved for verdict lists of any length (loop invariants).",
"C10":"Budget intersection, exceedance and both validators proved for any number of budgets and any values.",
"C11":"All seven attempt-usage functions proved against exact postconditions; frames proved.",
"C03":"Both checks proved for scope lists of any length; isPathWithinScope and safeRealpathSync themselves are bounded stand-ins on a scratch directory tree.",
"C04":"The wrapper is proved through a client that wraps and calls it; the two path extractors are bounded stand-ins (generated inputs).",
"C06":"All five functions proved for every granted set, tool, argument object and every policy catalogue.",
"C12":"Limit resolution, intersection, admission of new workers and queue capacity proved for fleets of any size.",
"C15":"All three functions proved; products of prices and token counts use exact reals.",
"C21":"Delay computation, failure classification and the retry controller's step proved (sleep and events are externals).",
"C28":"evaluateWorkerRetry proved together with the classifier it calls.",
"C35":"All TokenBudget methods proved to preserve its invariant and to meet their bounds.",
}
NOTES.update({
"C01":"The gate, its path extraction and the risk assessment are proved for every envelope, tool, arguments and policy catalogue; callees are used through contracts proved here or in C03/C04/C06.",
"C05":"Envelope derivation proved for lists of any length; the gate wrapper proved through a client that wraps a tool and calls it.",
"C07":"authorizeToolCall, execute and pathAllowed proved for every grant, usage state, manifest and request; the clock is constant during a call.",
"C08":"Nine functions of usage accounting proved; one call at a time (no interleaving inside a call exists: the code is synchronous up to the shared budget).",
})
NA={}
