CHECKS = {
    "P08": ("rules.external_tools", "other", "interprocedural guard/typestate dataflow on MIR (must-precede, deadline containment of awaits)"),
    "P01": ("rules.locks_rule", "other", "interprocedural lock-set and lock-order analysis on MIR"),
    "P12": ("rules.wasm_limits", "other", "interprocedural typestate (must-precede) and value-provenance analysis on MIR"),
}
CHECKS["P14"] = ("rules.extension_output", "other", "interprocedural must-validate dataflow on MIR (field-wise obligations over the guest protocol types)")
CHECKS["P13"] = ("rules.extension_process", "other", "interprocedural must-admit dataflow on MIR up to every process start and reindex, with value provenance for bounds")
CHECKS["P09"] = ("rules.extension_trust", "other", "interprocedural must-verify dataflow on MIR from discovery to instantiation of extension code")
CHECKS["P11"] = ("rules.cache", "other", "interprocedural must-verify dataflow on MIR for load and publication of persisted products, and coverage analysis of their identity hashes")
CHECKS["P10"] = ("rules.ownership", "other", "interprocedural must-check dataflow on MIR over every contribution to rename ranges, symbol results and diagnostics")
CHECKS["P02"] = ("rules.open_docs", "other", "interprocedural lock-held and must-check dataflow on MIR over text synchronisation, background fact storage and watched files")
CHECKS["P05"] = ("rules.admission", "other", "typestate and must-check dataflow on MIR over the admission state: limits at reservation, lease ownership, and change-implies-wake as a path-sensitive two-state machine")
CHECKS["P06"] = ("rules.single_flight", "other", "path-sensitive typestate exploration of the MIR of the shared-build tables with helpers expanded in place: register, run, publish, wake, withdraw, evict")
CHECKS["P04"] = ("rules.run_status", "other", "path-sensitive typestate exploration of the MIR of the run-status operations and run drivers with helpers expanded in place, plus must-check dataflow for publications")
CHECKS["P03"] = ("rules.outbox", "other", "path-sensitive typestate exploration of the MIR of the outgoing queues: queue, mark, start sender, take, send, mark gone")
CHECKS["P22"] = ("rules.columns", "other", "interprocedural unit-of-measure dataflow on MIR: every column, text offset and character count is traced to what it counts")
CHECKS["P23"] = ("rules.stale", "other", "path-sensitive effect analysis of the fact stores on MIR (which index each path erases and inserts), must-replace over the engine, cache-state and revision transducers over the call graph")
CHECKS["P16"] = ("rules.stdio", "other", "call-graph reachability of standard stream handles from the serving code, must-dataflow of process configuration and of the parent probe before exit")
CHECKS["P21"] = ("rules.archives", "other", "typed inventory of decompressing reads on MIR, control-flow search from each read to its uses, interprocedural must-dataflow (declared size, entry kind) and value tracking of archive names into written paths")
