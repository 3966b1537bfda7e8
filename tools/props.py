"""Which harness runs decide which property, with their bounds."""

def history(k):
    return [
        dict(entry="lsp_history", params=dict(index=k), quick=dict(text=3 - k, ins=2), thorough=dict(text=4, ins=2)),
        dict(entry="lsp_history", params=dict(index=k, classes=3, iclasses=3), quick=dict(text=5 - k, ins=3), thorough=dict(text=7, ins=4)),
        dict(entry="lsp_history", params=dict(index=k, classes=3, iclasses=3), quick=dict(text=2, ins=2, edits=2), thorough=dict(text=3, ins=2, edits=2)),
        dict(entry="lsp_history", params=dict(index=k, classes=2, iclasses=2), quick=dict(text=8, ins=2), thorough=dict(text=12, ins=4)),
    ]


H = {
    "L01": dict(crate="h-lite", runs=history(0) + [dict(entry="lsp_total", quick=dict(text=3), thorough=dict(text=4))]),
    "L02": dict(crate="h-lite", runs=history(1)),
    "L03": dict(crate="h-lite", runs=[
        dict(entry="lsp_positions", quick=dict(text=3), thorough=dict(text=5)),
        dict(entry="lsp_positions", params=dict(classes=3), quick=dict(text=6), thorough=dict(text=9)),
        dict(entry="lsp_positions", params=dict(classes=2), quick=dict(text=9), thorough=dict(text=16)),
        ]),
}
ASSUMPTIONS = [
    "The LLVM bitcode rustc emits for the harness crate (the project's own toolchain, opt-level 2, fat LTO, overflow checks and debug assertions on) has the meaning of the source; the engine's semantics of it are checked on every run by replaying a sample of the explored paths natively.",
    "Allocation never fails (requests above the engine's limit are reported as a panic, as the allocator would).",
    "Stubbed: quoting of text with {:?} (str and char Debug formatting, only used in error and log messages) produces nothing.",
    "HashMap keys are constants (what getrandom yields; a few values of them where the parameter hash says so): an iteration order is one of the possible ones.",
    "Time limits: a solver timeout, an unsupported instruction, an exhausted step budget or unexplored states end the check without a verdict (exit 2), never with success.",
]
H.update({
    "P01": dict(crate="h-lite", runs=[
        dict(entry="peg_edits", quick=dict(tokens=4, ins=2, edits=1), thorough=dict(tokens=6, ins=3, edits=1)),
        dict(entry="peg_edits", quick=dict(tokens=2, ins=1, edits=2), thorough=dict(tokens=3, ins=2, edits=2)),
        dict(entry="peg_edits", params=dict(hash=0, replace=1), quick=dict(tokens=4, edits=2), thorough=dict(tokens=5, edits=2)),
        dict(entry="peg_edits", params=dict(hash=1, replace=1), quick=dict(tokens=4, edits=2), thorough=dict(tokens=5, edits=2)),
        dict(entry="peg_edits", params=dict(hash=2, replace=1), quick=dict(tokens=4, edits=2), thorough=dict(tokens=5, edits=2)),
        dict(entry="peg_edits", params=dict(hash=3, replace=1), quick=dict(tokens=4, edits=2), thorough=dict(tokens=5, edits=2)),
        dict(entry="peg_edits", quick=dict(tokens=2, ins=1, edits=1, family=1), thorough=dict(tokens=3, ins=2, edits=2, family=1)),
        ]),
    "P02": dict(crate="h-lite", runs=[
        dict(entry="peg_match", quick=dict(tokens=9), thorough=dict(tokens=13)),
        dict(entry="peg_match", quick=dict(tokens=5, family=1), thorough=dict(tokens=7, family=1)),
        ]),
    "P03": dict(crate="h-lite", runs=[
        dict(entry="peg_validate", quick=dict(rules=2), thorough=dict(rules=3), reach=[0,1]),
        ]),
})
H.update({
    "J01": dict(crate="h-host", runs=[
        dict(entry="json_roundtrip", quick=dict(chars=2), thorough=dict(chars=3)),
        dict(entry="json_roundtrip", quick=dict(chars=0, messages=2, chunk=1), thorough=dict(chars=1, messages=2, chunk=3)),
        dict(entry="json_long", quick=dict(edges=9), thorough=dict(edges=10)),
        ]),
    "J02": dict(crate="h-host", runs=[
        dict(entry="json_frames", quick=dict(headers=2), thorough=dict(headers=3), reach=[0, 1]),
        dict(entry="json_bytes", quick=dict(faults=1), thorough=dict(faults=2), reach=[0, 1]),
        dict(entry="json_bytes", quick=dict(faults=1, chunk=1), thorough=dict(faults=1, chunk=3), reach=[0, 1]),
        dict(entry="json_bytes", quick=dict(free=8), thorough=dict(free=12), reach=[0]),
        ]),
    "J03": dict(crate="h-host", runs=[
        dict(entry="json_kinds", quick=dict(chars=2), thorough=dict(chars=3), reach=[0, 1]),
        ]),
})
H.update({
    "F01": dict(crate="h-abs", runs=[
        dict(entry="completion_ready"),
        dict(entry="completion_once", threads=1, params=dict(setters=2, observers=1), opts=dict(preempt=2), topts=dict(preempt=3)),
        dict(entry="completion_once", threads=1, params=dict(setters=3, observers=0, looks=0), opts=dict(preempt=1), topts=dict(preempt=2)),
        dict(entry="completion_once", threads=1, params=dict(setters=2, observers=0, looks=0), opts=dict(preempt=3), topts=dict(preempt=4)),
        ]),
    "F02": dict(crate="h-abs", runs=[
        dict(entry="completion_wakes", threads=1, params=dict(consumers=1, again=1), opts=dict(preempt=4), topts=dict(preempt=6)),
        dict(entry="completion_wakes", threads=1, params=dict(consumers=2), opts=dict(preempt=1), topts=dict(preempt=3)),
        dict(entry="completion_wakes", threads=1, params=dict(consumers=5, late=1), opts=dict(preempt=0), topts=dict(preempt=0)),
        dict(entry="completion_ready"),
        dict(entry="completion_wakes", threads=1, params=dict(consumers=1, quitters=1), opts=dict(preempt=1), topts=dict(preempt=3)),
        ]),
})
H.update({
    "F03": dict(crate="h-abs", runs=[
        dict(entry="pool_history", quick=dict(tasks=2, pending=2, events=3), thorough=dict(tasks=2, pending=2, events=5), reach=[0, 1]),
        dict(entry="pool_threads", threads=1, params=dict(wakes=2), opts=dict(preempt=3), topts=dict(preempt=4)),
        dict(entry="pool_threads", threads=1, params=dict(wakes=1, threads=2), opts=dict(preempt=1), topts=dict(preempt=2)),
        ]),
})
H.update({
    "X01": dict(crate="h-core", runs=[
        dict(entry="lex_text", params=dict(kinds=0), quick=dict(chars=3), thorough=dict(chars=4)),
        dict(entry="lex_text", params=dict(kinds=0, classes=5), quick=dict(chars=1), thorough=dict(chars=2)),
        dict(entry="lex_mixed", params=dict(kinds=0, alphabet=1), quick=dict(len=5), thorough=dict(len=7)),
        dict(entry="lex_mixed", params=dict(kinds=0), quick=dict(len=7), thorough=dict(len=10)),
        dict(entry="lex_pieces", params=dict(kinds=0), quick=dict(pieces=2), thorough=dict(pieces=3)),
        ]),
    "X02": dict(crate="h-core", runs=[
        dict(entry="lex_text", quick=dict(chars=2), thorough=dict(chars=4)),
        dict(entry="lex_text", params=dict(classes=5), quick=dict(chars=1), thorough=dict(chars=1)),
        dict(entry="lex_beyond", quick=dict(chars=2), thorough=dict(chars=3)),
        dict(entry="lex_words", quick=dict(len=11), thorough=dict(len=13)),
        dict(entry="lex_mixed", quick=dict(len=7), thorough=dict(len=10)),
        dict(entry="lex_mixed", params=dict(alphabet=1), quick=dict(len=5), thorough=dict(len=7)),
        dict(entry="lex_mixed", params=dict(alphabet=2), quick=dict(len=4), thorough=dict(len=6)),
        dict(entry="lex_mixed", params=dict(alphabet=3), quick=dict(len=5), thorough=dict(len=7)),
        dict(entry="lex_pieces", quick=dict(pieces=2), thorough=dict(pieces=3), reach=[0, 1, 2]),
        ]),
    "X03": dict(crate="h-core", runs=[
        dict(entry="lex_ints", quick=dict(len=6), thorough=dict(len=8), reach=[0, 1, 2]),
        dict(entry="lex_long_ints", quick=dict(free=2), thorough=dict(free=3), reach=[0, 1, 2]),
        dict(entry="lex_pieces", quick=dict(pieces=2), thorough=dict(pieces=3), reach=[0, 1, 2]),
        ]),
})
H.update({
    "C01": dict(crate="h-core", runs=[
        dict(entry="pp_conditionals", quick=dict(items=8), thorough=dict(items=11), reach=[0, 1, 2]),
        dict(entry="pp_conditionals", params=dict(kinds=11), quick=dict(items=4), thorough=dict(items=6), reach=[0, 1, 2]),
        dict(entry="pp_conditionals", params=dict(kinds=8), quick=dict(items=5), thorough=dict(items=6), reach=[0, 1, 2]),
        dict(entry="pp_conditional_text", quick=dict(items=4), thorough=dict(items=6), reach=[0, 1, 2]),
        dict(entry="pp_conditional_text", params=dict(kinds=11), quick=dict(items=3), thorough=dict(items=5), reach=[0, 1, 2]),
        ]),
    "C02": dict(crate="h-core", runs=[
        dict(entry="pp_eval", quick=dict(ops=1), thorough=dict(ops=2), reach=[0, 1]),
        dict(entry="pp_expr_ops", quick=dict(ops=2, eq=0), thorough=dict(ops=2), reach=[0, 1]),
        dict(entry="pp_expr_operands", quick=dict(operands=2), thorough=dict(operands=2), reach=[0, 1]),
        dict(entry="pp_expr_text", quick=dict(len=3), thorough=dict(len=5), reach=[0, 1]),
        dict(entry="pp_expr_text", params=dict(alphabet=1), quick=dict(len=3), thorough=dict(len=5), reach=[0, 1]),
        ]),
    "C03": dict(crate="h-core", runs=[
        dict(entry="pp_includes", quick=dict(files=2, root=3, rest=2), thorough=dict(files=2, root=4, rest=2), reach=[0, 1]),
        dict(entry="pp_includes", params=dict(kinds=8), quick=dict(files=2, root=2, rest=2), thorough=dict(files=2, root=3, rest=3), reach=[0, 1]),
        dict(entry="pp_includes", params=dict(files=3), quick=dict(root=2, rest=2, kinds=5), thorough=dict(root=3, rest=2, kinds=7), reach=[0, 1]),
        ]),
    "C04": dict(crate="h-core", runs=[
        dict(entry="pp_total", quick=dict(chars=2), thorough=dict(chars=4), reach=[0]),
        dict(entry="pp_total", params=dict(classes=4), quick=dict(chars=1), thorough=dict(chars=2), reach=[0]),
        dict(entry="pp_eval", quick=dict(ops=1), thorough=dict(ops=2), reach=[0, 1]),
        dict(entry="lex_mixed", params=dict(kinds=0, alphabet=1), quick=dict(len=5), thorough=dict(len=7)),
        dict(entry="pp_conditionals", params=dict(kinds=11), quick=dict(items=4), thorough=dict(items=5), reach=[0, 1, 2]),
        ]),
    "A01": dict(crate="h-core", runs=[
        dict(entry="analyzer_history", quick=dict(ops=2), thorough=dict(ops=3), reach=[0]),
        dict(entry="analyzer_history", params=dict(texts=2), quick=dict(ops=3), thorough=dict(ops=4), reach=[0]),
        ]),
})

def talk(ids):
    r = [dict(entry="lsp_conversation", params={"from": f, "ids": ids}, quick=dict(ops=1), thorough=dict(ops=2), reach=[0, 1]) for f in range(4)]
    return r + [dict(entry="lsp_conversation", params={"from": f, "ids": 0}, quick=dict(ops=2), thorough=dict(ops=3), reach=[0, 1]) for f in ((0, 2) if ids else (1, 2, 3))]
H.update({
    "H01": dict(crate="h-lsp", runs=talk(0)),
    "H02": dict(crate="h-lsp", runs=talk(2)),
    "H03": dict(crate="h-lsp", runs=[
        dict(entry="requests_history", params=dict(callers=2), quick=dict(ops=4), thorough=dict(ops=6), reach=[0, 1, 2]),
        dict(entry="requests_history", params=dict(callers=2, kinds=1), quick=dict(ops=5), thorough=dict(ops=7), reach=[0, 1, 2]),
        dict(entry="requests_history", params=dict(callers=3, kinds=1, answers=1), quick=dict(ops=5), thorough=dict(ops=7), reach=[0, 1, 2]),
        ]),
    "H04": dict(crate="h-lsp", runs=[
        dict(entry="documents_history", params=dict(docs=2), quick=dict(ops=3), thorough=dict(ops=4), reach=[0, 1, 2]),
        dict(entry="documents_history", params=dict(docs=2, late=1, folders=1), quick=dict(ops=3, changes=1), thorough=dict(ops=4, changes=2), reach=[0, 1, 2]),
        dict(entry="documents_history", params=dict(docs=1, changes=1), quick=dict(ops=4), thorough=dict(ops=6), reach=[0, 1, 2]),
        dict(entry="documents_history", params=dict(docs=1, late=1, batch=1, changes=1, folders=1, ranges=1), quick=dict(ops=4), thorough=dict(ops=5), reach=[0, 1, 2]),
        dict(entry="documents_history", params=dict(docs=2, late=1, batch=1, changes=1, folders=1), quick=dict(ops=2), thorough=dict(ops=4), reach=[0, 1, 2]),
        dict(entry="documents_history", params=dict(docs=3, folders=1, changes=1, disk=0), quick=dict(ops=2), thorough=dict(ops=3), reach=[0, 1]),
        ]),
    "H05": dict(crate="h-lsp", runs=[
        dict(entry="folders_lookup", params=dict(folders=2), quick=dict(depth=2, file_depth=3), thorough=dict(depth=3, file_depth=4), reach=[0, 1]),
        dict(entry="folders_lookup", params=dict(folders=2, hosts=2, segments=4), quick=dict(depth=1, file_depth=2), thorough=dict(depth=2, file_depth=3), reach=[0, 1]),
        dict(entry="folders_lookup", params=dict(folders=3, segments=2), quick=dict(depth=1, file_depth=2), thorough=dict(depth=2, file_depth=3), reach=[0, 1]),
        ]),
    "H06": dict(crate="h-lsp", runs=[
        dict(entry="logs_levels", quick=dict(ops=4), thorough=dict(ops=6), reach=[0, 1, 2]),
        dict(entry="logs_server", quick=dict(ops=3), thorough=dict(ops=5), reach=[0, 1, 2]),
        ]),
    "H07": dict(crate="h-lsp", runs=[
        dict(entry="documents_odd", quick=dict(ops=1), thorough=dict(ops=2), reach=[0]),
        dict(entry="documents_odd", params=dict(uris=4), quick=dict(ops=2), thorough=dict(ops=3), reach=[0]),
        ]),
    "H08": dict(crate="h-lsp", runs=[
        dict(entry="folders_index", quick={}, thorough=dict(folders=3), reach=[0, 1, 2]),
        ]),
    "H09": dict(crate="h-lsp", runs=[dict(entry="lsp_ends", quick=dict(after=2), thorough=dict(after=4), reach=[0, 1])]),
})
H.update({
    "D01": dict(crate="h-driver", runs=[
        dict(entry="driver_console", threads=1, opts=dict(preempt=0), topts=dict(preempt=0), quick=dict(messages=2, answers=2), thorough=dict(messages=3, answers=3), reach=[0, 1]),
        dict(entry="driver_console", threads=1, opts=dict(preempt=1), topts=dict(preempt=2), params=dict(kinds=1, cuts=0, messages=1, answers=1), quick=dict(ends=2), thorough=dict(ends=2), reach=[0, 1]),
        dict(entry="driver_cancel", threads=1, opts=dict(preempt=1), topts=dict(preempt=1), quick=dict(messages=1, answers=1), thorough=dict(messages=2, answers=2), reach=[0]),
        dict(entry="driver_server", threads=1, opts=dict(preempt=0), topts=dict(preempt=1), reach=[0, 1]),
        dict(entry="driver_buffer", threads=1, opts=dict(preempt=0), topts=dict(preempt=0), quick=dict(messages=2, ops=2), thorough=dict(messages=2, ops=3), reach=[0, 1]),
        dict(entry="driver_clear", threads=1, opts=dict(preempt=1), topts=dict(preempt=1), quick=dict(messages=1, answers=0), thorough=dict(messages=2, answers=1), reach=[0, 1]),
        ]),
    "N01": dict(crate="h-driver", runs=[
        dict(entry="files_enumerate", quick=dict(entries=1), thorough=dict(entries=1, depth=2), reach=[0, 1]),
        dict(entry="files_enumerate", params=dict(entries=2), quick=dict(names=4, depth=1), thorough=dict(names=5, depth=2), reach=[0, 1]),
        dict(entry="files_read", quick=dict(bytes=3), thorough=dict(bytes=4), reach=[0, 1]),
        ]),
})
H.update({
    "M01": dict(crate="h-wasm", runs=[
        dict(entry="wasm_messages", quick=dict(ops=1), thorough=dict(ops=2), reach=[0]),
        dict(entry="wasm_messages", params=dict(free=1, cuts=3, chars=0), quick=dict(ops=3), thorough=dict(ops=4), reach=[0]),
        dict(entry="wasm_messages", params={"from": 1, "free": 1, "cuts": 3}, quick=dict(ops=2), thorough=dict(ops=3), reach=[0, 1]),
        dict(entry="wasm_messages", params=dict(kinds=1, pads=3, chars=2), quick=dict(ops=1), thorough=dict(ops=2), reach=[0]),
        ]),
})
H.update({
    "H10": dict(crate="h-lsp", runs=[
        dict(entry="lsp_offers", quick=dict(), thorough=dict(), reach=[0, 1]),
        ]),
})
H.update({
    "W01": dict(crate="h-lsif", runs=[
        dict(entry="lsif_dump", threads=1, opts=dict(preempt=0), topts=dict(preempt=0), params=dict(outputs=1), quick=dict(files=2), thorough=dict(files=3), reach=[0, 1]),
        dict(entry="lsif_dump", threads=1, opts=dict(preempt=0), topts=dict(preempt=1), quick=dict(files=1), thorough=dict(files=1), reach=[0, 1]),
        dict(entry="lsif_dump", threads=1, tier="thorough", topts=dict(preempt=1), params=dict(places=1, outputs=1, where=1, old=1), thorough=dict(files=1), reach=[0, 1]),
        ]),
})
H.update({
    "T01": dict(ts="packages/p4-analyzer/src/server/index.ts", technique="symbolic interpretation of the module's syntax tree with Z3 (bounded), counterexamples replayed under Node", runs=[
        dict(entry="ts_requests", quick=dict(messages=2, chars=1, wide=1, cuts=1, slow=1), thorough=dict(messages=2, chars=2, wide=2, cuts=1, slow=1)),
        dict(entry="ts_requests", quick=dict(messages=2, chars=1, headers=3, symtype=1, cuts=1, pace=1), thorough=dict(messages=2, chars=1, headers=3, symtype=1, cuts=2)),
        dict(entry="ts_requests", quick=dict(messages=3, chars=1, cuts=2, pace=3, views=0), thorough=dict(messages=4, chars=1, cuts=2, pace=3)),
        dict(entry="ts_requests", params=dict(chars=1, pads=[0, 2030, 4100]), quick=dict(messages=2, near=1, cuts=2), thorough=dict(messages=3, near=3, cuts=2)),
        dict(entry="ts_requests", quick=dict(messages=2, chars=4, cuts=0, views=0), thorough=dict(messages=2, chars=4, cuts=2)),
        dict(entry="ts_session", quick=dict(events=2, chars=1), thorough=dict(events=3, chars=2)),
        ]),
})
