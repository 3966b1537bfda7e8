"""The properties, in the form of properties.jsonl."""
CORE = "crates/analyzer-core/src/"
ABS = "crates/analyzer-abstractions/src/"
HOST = "crates/analyzer-host/src/"
P4A = "crates/p4-analyzer/src/"
PROPERTIES = []
NOT_APPLICABLE = {}


def P(id, title, statement, over, quant, why, files, mech, observe=None, na=None):
    PROPERTIES.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                           anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=None)))
    if na:
        NOT_APPLICABLE[id] = na


P("L01", "Edits keep a document equal to the text the client has",
  "After any sequence of content changes (whole-text replacements and range edits), the content of a file is exactly the text obtained by replacing, one change after another, the characters each range denotes with the change's text. "
  "A position past the end of a line means the end of that line (before its line break), a line past the end of the text means the end of the text, and characters are counted in Unicode scalar values. "
  "An edit never panics, except for a range whose start lies after its end on a non-empty file, which is refused and never applied.",
  ["inputs", "histories"], "every initial text, every sequence of changes, every position a client can send, every inserted text, including multi-byte characters, empty texts and missing final line breaks",
  "The tests apply a handful of literal edits to a few fixed ASCII-heavy documents; the arithmetic that splices the line table depends on every combination of line breaks, character widths and clipped positions.",
  [CORE + "lsp_file.rs"], [("LspFile::lazy_add", CORE + "lsp_file.rs"), ("position clipping", "LspFile::lsp_to_byte / byte_to_lsp / lsp_to_lsp")], ["LspFile::get_file_content"])
P("L02", "The line index always describes the current text",
  "After any sequence of content changes, the line table of a file is the one computed from scratch for its current content: for every line the byte offset of its last byte (its line break, or the last byte of a final line without one). "
  "Accordingly, the number of characters reported for a line is that of the line in the current text, its line break included, and 0 past the last line.",
  ["inputs", "histories"], "every initial text and every sequence of changes",
  "The incremental shifting of line offsets is only exercised on a few fixed edits; an error in the head, middle or tail of the table shows only for particular line structures and byte widths.",
  [CORE + "lsp_file.rs"], [("incremental line table", "LspFile::lazy_add"), ("LspFile::parse_string", CORE + "lsp_file.rs")], ["LspFile::get_ranges", "LspFile::line_char"])
P("L03", "Positions and byte offsets convert consistently",
  "For any text, the byte offset of a position is the start of the character the position denotes (clipped to the end of the line or of the text), and the position of a byte offset denotes the character containing that byte, or the end of the text for offsets past it. "
  "Converting an offset to a position and back leads to the start of the same character, positions grow with offsets, and ranges convert by their two ends.",
  ["inputs"], "every text, every position (32-bit line and character), every byte offset",
  "Tests convert a few positions of one or two documents; boundaries (ends of lines, multi-byte characters, the last line, positions out of range) are a product space.",
  [CORE + "lsp_file.rs"], [("LspFile::lsp_to_byte", CORE + "lsp_file.rs"), ("LspFile::byte_to_lsp", CORE + "lsp_file.rs")], ["LspFile::lsp_to_byte", "LspFile::byte_to_lsp", "LspFile::lsp_range_to_byte_range", "LspFile::byte_range_to_lsp_range"])
P("P01", "Incremental reparsing equals a fresh parse",
  "After any sequence of matches and token edits, matching gives exactly the result (success or failure and the whole tree) that a new parser over the resulting tokens gives. "
  "Applying an edit whose range lies within the current tokens never panics, whatever has been matched before.",
  ["inputs", "histories", "programs"], "every grammar without left recursion and without repetition of a rule that can match nothing, every token sequence, every history of edits and matches",
  "One test performs two edits of one input of one grammar; stale memo entries need particular combinations of lookahead, backtracking, edit position and memoized columns.",
  [CORE + "parser.rs"], [("memo invalidation", "Parser::apply_edit"), ("examined lengths", "Matcher::memoize_result / use_memoized_result")], ["Parser::_match"])
P("P02", "Matching implements the grammar's PEG semantics",
  "For any well-formed grammar and token sequence, a match succeeds exactly when the start rule, read as a parsing expression (literal terminals, ordered choice, sequence, greedy repetition, negative lookahead that consumes nothing), matches the whole input. "
  "The tree mirrors the grammar: the alternative taken, the parts in order, every repetition and the literal tokens; matching again gives the same tree.",
  ["inputs", "programs"], "every grammar without left recursion and without repetition of a rule that can match nothing, every token sequence",
  "Tests check a few inputs of four grammars and none that uses negative lookahead.",
  [CORE + "parser.rs"], [("Matcher::eval_rule", CORE + "parser.rs"), ("Matcher::memoized_eval_rule", CORE + "parser.rs")], ["Parser::_match"])
P("P03", "A rule set is accepted exactly when it is closed",
  "Building a parser from rules succeeds if there is a rule named start and every rule referred to by any rule is defined, and is an error otherwise; it never panics.",
  ["programs"], "every finite set of rules",
  "No test builds a parser from an incomplete rule set.",
  [CORE + "parser.rs"], [("Parser::from_rules", CORE + "parser.rs")], ["Parser::from_rules"])
P("J01", "Messages survive the wire, back to back",
  "Writing any message and reading it back gives an equal message of the same kind, with the same id, method, parameters, result and error; any number of messages written one after another are read back in order, followed by a clean end of stream. "
  "What is written is a Content-Length header giving the exact number of bytes of the UTF-8 JSON body, a blank line and that body, carrying jsonrpc 2.0.",
  ["inputs", "histories"], "every request, notification and response; ids of both kinds; strings with any characters",
  "No test covers the transport at all.",
  [HOST + "json_rpc.rs", HOST + "json_rpc/message.rs"], [("write_msg_text / read_msg_text", HOST + "json_rpc.rs"), ("untagged Message", HOST + "json_rpc/message.rs")], ["Message::read", "Message::write"])
P("J02", "Reading a stream never panics and never misreads a frame",
  "Reading a message from any byte stream gives a message, a clean end of stream (only when the stream ends before a header line begins), or an error; it never panics, loops, or allocates on the word of an unbelievable length. "
  "A body is exactly the number of bytes the last Content-Length header states, other headers are ignored, and a header without a CRLF ending, without a colon, a missing or non-numeric length, a body cut short, or one that is not UTF-8 is an error.",
  ["inputs"], "every byte stream, however split by the underlying reader",
  "No test covers the transport at all, let alone malformed input.",
  [HOST + "json_rpc.rs"], [("read_msg_text", HOST + "json_rpc.rs")], ["Message::read"])
P("J03", "An incoming JSON body is classified by its fields",
  "A JSON-RPC body with a method and an id is a request, one with a method and no id a notification, one with an id and no method a response; absent parameters read as null, and integer and string ids stay distinct and unchanged. "
  "A body that is none of these is an error, never a different kind of message.",
  ["inputs"], "every combination of present and absent fields, every id value",
  "No test deserializes a message.",
  [HOST + "json_rpc/message.rs", HOST + "json_rpc.rs"], [("Message", HOST + "json_rpc/message.rs"), ("RequestId", HOST + "json_rpc.rs")], ["Message::read"])
P("F01", "A completion source completes once and stays completed",
  "Whatever threads race to complete a completion source, exactly one attempt succeeds and every other one reports that it has already completed. "
  "Once any observer has seen it completed, every observer sees that same value or error for ever.",
  ["schedules"], "every interleaving of any number of completing and observing threads",
  "The tests run one interleaving per run on one thread pool.",
  [ABS + "futures_extensions.rs"], [("FutureCompletionSource::set_inner_value", ABS + "futures_extensions.rs"), ("state", "FutureCompletionSource::state")], ["set_value / set_err results", "state()"])
P("F02", "Every awaiting consumer is woken by the completion",
  "A consumer that awaits a completion source, before, while or after another thread completes it, always obtains the value or error it was completed with; no interleaving leaves it waiting for ever or makes it panic.",
  ["schedules"], "every interleaving of completing and awaiting threads",
  "The window between checking the state and registering the listener is a few instructions wide; tests do not hit it.",
  [ABS + "futures_extensions.rs"], [("FutureCompletionSource::future", ABS + "futures_extensions.rs"), ("notify after completing", "set_inner_value")], ["FutureCompletionSource::future"])
P("F03", "The work pool runs all work to completion until stopped",
  "Every piece of work spawned on the pool is polled until it completes, however often it is pending in between and in whatever order it is woken, and is never polled again after it completed. "
  "Running the pool ends without an error once it is stopped, after the work woken before that, and with the cancellation error if its token is cancelled when it is stopped or next woken; spawning and waking work never panic, not even on a pool that is being stopped.",
  ["schedules", "histories"], "every mix of spawned tasks, wake-ups (also repeated and late ones), stop and cancellation",
  "The tests run two or three fixed tasks.",
  [ABS + "futures_extensions/async_extensions.rs"], [("AsyncPool::start", ABS + "futures_extensions/async_extensions.rs"), ("AsyncWork as ArcWake", ABS + "futures_extensions/async_extensions.rs")], ["AsyncPool"])
P("X01", "Lexing is total and its tokens tile the source",
  "Lexing any source text ends without a panic, and the spans of its tokens are non-empty, adjacent, in order, on character boundaries, and together cover the text from its first to its last byte.",
  ["inputs"], "every source text",
  "Tests and benches lex a few well-formed programs.",
  [CORE + "lexer.rs", CORE + "lib.rs"], [("Token lexer", CORE + "lexer.rs"), ("callbacks that bump", "Lexer::read_comment / read_directive"), ("lex", CORE + "lib.rs")], ["Analyzer::lexed"])
P("X02", "Token kinds follow P4's lexical rules",
  "Each token is the longest lexeme its first character allows: keywords only when the whole word is one, identifiers otherwise, punctuation as itself, runs of white space as one token, line comments up to their line break or the end of the text, block comments up to their first terminator, and a directive (# and a word on one line) up to its line's unescaped end. "
  "Text that fits no rule gives error tokens, and each maximal run of them one diagnostic spanning it.",
  ["inputs"], "every source text",
  "Tests check the token lists of a few fixed programs.",
  [CORE + "lexer.rs", CORE + "lib.rs"], [("Token", CORE + "lexer.rs"), ("process_error_tokens", CORE + "lib.rs")], ["Analyzer::lexed", "Analyzer::diagnostics"])
P("X03", "Integer literals have the value, base, width and sign P4 gives them",
  "An integer literal of P4's syntax (optional width and signedness, optional base, digits of that base, underscores) is lexed as one integer token with exactly that width, sign, base and value; one whose digits do not fit its base or whose value does not fit is an error with a diagnostic, never another value and never a panic.",
  ["inputs"], "every spelling of an integer literal",
  "Tests check fewer than a dozen literals.",
  [CORE + "lexer.rs"], [("read_int", CORE + "lexer.rs"), ("parse_width / parse_base", CORE + "lexer.rs")], ["Analyzer::lexed"])
P("C01", "Conditional directives select exactly the right branches",
  "Of every #if/#elif/#else chain, exactly the first branch whose condition holds (or the #else branch, or nothing) contributes its tokens and takes effect; everything nested in a branch not taken, including defines and includes, has no effect. "
  "Chains nest to any depth; an #elif, #else or #endif outside a chain, an #elif or #else after an #else, and a chain a file does not end are reported, and nothing else is.",
  ["inputs", "programs"], "every sequence of directives and tokens",
  "Tests run ten fixed snippets without nesting.",
  [CORE + "preprocessor.rs"], [("PreprocessorState::preprocess", CORE + "preprocessor.rs"), ("skip_conditional_directive", CORE + "preprocessor.rs")], ["Analyzer::preprocessed", "Analyzer::diagnostics"])
P("C02", "Conditions are evaluated as C expressions",
  "The value of an #if or #elif expression is the one C's precedence, associativity and 64-bit integer operators give it, with defined(x) and defined x telling whether x is defined, an identifier standing for the value of its definition and an undefined one for zero.",
  ["inputs"], "every expression over the supported operators, literals and definitions",
  "Tests evaluate two expressions.",
  [CORE + "preprocessor.rs"], [("parser::exp3 to exp12", CORE + "preprocessor.rs"), ("interpret_pp_expr", CORE + "preprocessor.rs")], ["Analyzer::preprocessed"])
P("C03", "Includes are expanded in place, in order, without loops",
  "An #include of a known file contributes that file's preprocessed tokens, in their order, at the place of the directive, its definitions being visible afterwards; an unknown file is reported and recorded as an unresolved dependency, a known one as a resolved one. "
  "Including a file that is still being included is reported at the directive and otherwise ignored, so preprocessing ends; each path is resolved relative to the file that names it, and files that are not known are asked for.",
  ["inputs", "programs"], "every include graph of files",
  "No test preprocesses an include.",
  [CORE + "preprocessor.rs", CORE + "lib.rs"], [("Include handling", "PreprocessorState::preprocess"), ("preprocess", CORE + "lib.rs")], ["Analyzer::preprocessed", "Analyzer::include_dependencies"])
P("C04", "No source text makes the analysis panic or hang",
  "Lexing, preprocessing and collecting diagnostics end without a panic for every source text, in particular for every arithmetic in conditions, every macro definition and every directive.",
  ["inputs"], "every source text",
  "Tests feed well-formed programs.",
  [CORE + "preprocessor.rs", CORE + "lexer.rs"], [("interpret_pp_expr", CORE + "preprocessor.rs"), ("directive parsing", CORE + "lexer.rs")], ["Analyzer::preprocessed"])
P("A01", "The analyzer answers for the latest content of each file",
  "After any sequence of updates, edits and deletions of files, the input, tokens, preprocessed tokens, diagnostics, dependencies and file list the analyzer gives are those of a new analyzer given only the final contents; operations on one file leave the others alone.",
  ["histories"], "every history of updates, edits, deletions and queries over several files",
  "No test covers a history.",
  [CORE + "lib.rs"], [("Analyzer::update / delete / file_change_event", CORE + "lib.rs")], ["Analyzer"])
P("H01", "The server follows the protocol's lifecycle",
  "Until initialized, every request but initialize is answered with a server-not-initialized error and notifications but exit are dropped; after shutdown, requests are answered with an invalid-request error; exit ends the server from any state. Requests and notifications valid in the current state are handled, whatever happened before; an initialize that fails leaves nothing behind and can be repeated.",
  ["histories"], "every sequence of client messages",
  "Integration tests run one or two fixed conversations.",
  [HOST + "fsm.rs", HOST + "lsp/dispatch.rs", HOST + "lsp_impl"], [("ProtocolMachine", HOST + "fsm.rs"), ("Dispatch", HOST + "lsp/dispatch.rs")], ["messages sent by the server"])
P("H02", "Every request is answered exactly once, with its own id",
  "Each request from the client gets exactly one response, carrying its id, with either a result or an error, even if its method is unknown or its parameters are invalid; notifications and responses get none.",
  ["histories", "inputs"], "every sequence of client messages with any method names and parameters",
  "Tests send a few well-formed requests.",
  [HOST + "lsp/dispatch_target.rs", HOST + "fsm.rs"], [("DispatchTarget", HOST + "lsp/dispatch_target.rs"), ("ProtocolMachine::process_message", HOST + "fsm.rs")], ["messages sent by the server"])
P("H03", "Requests to the client are matched with their responses",
  "Every request the server sends has an id no other outstanding one has; the response with that id, and no other, completes it with the result or error it carries, in whatever order responses arrive; a response nobody waits for changes nothing. When no more responses can come, requests that still wait fail, as do later ones.",
  ["schedules", "histories"], "every interleaving of concurrent senders and every order of responses",
  "No test sends two requests at once.",
  [HOST + "lsp/request.rs"], [("RequestManager", HOST + "lsp/request.rs")], ["RequestManager"])
P("H04", "Open documents are the client's, closed ones the disk's",
  "Between didOpen and didClose the analysis uses the content the client sent, with every didChange applied in order, and changes or failures on disk do not replace it, not even those of a load that was under way; so does a document that includes it. A document not open has the content on disk, as of the last watched-file event, or none once it is deleted or, after didClose, until it is needed again.",
  ["histories"], "every sequence of open, change, save, close and watched-file notifications",
  "No test covers documents.",
  [HOST + "lsp_impl/active_initialized.rs", HOST + "lsp/workspace.rs"], [("text document handlers", HOST + "lsp_impl/active_initialized.rs"), ("File", HOST + "lsp/workspace.rs")], ["completion lists"])
P("H05", "A file belongs to the workspace whose folder contains it",
  "A document is looked up in the workspace whose root folder contains it, the same object every time, and a file outside every workspace is still served; of nested folders the innermost counts, and a folder that merely shares a name prefix is not an ancestor. A file not seen before is loaded, once.",
  ["inputs", "configurations"], "every set of workspace folders and every document URI",
  "No test covers workspaces.",
  [HOST + "lsp/workspace.rs"], [("WorkspaceManager::get_file", HOST + "lsp/workspace.rs"), ("is_descendant_path", HOST + "lsp/workspace.rs")], ["WorkspaceManager"])
P("H06", "The trace level set by the client governs what is logged",
  "Log notifications are sent only at the trace level the client set last: none when off, messages without details on messages, and with details on verbose.",
  ["histories"], "every sequence of setTrace notifications and trace events",
  "No test covers tracing.",
  [HOST + "tracing.rs", HOST + "lsp_impl/state.rs"], [("LspTracingLayer", HOST + "tracing.rs")], ["$/logTrace notifications"])
P("H07", "No message from the client ends the server but exit",
  "Whatever notifications and requests arrive once the server is initialized, for whatever documents (never opened, missing, outside every folder, with any kind of URI) and with whatever edits and file events, the server goes on, answers the next request, and documents that are open keep their content.",
  ["histories", "inputs"], "every sequence of messages, however odd",
  "Tests send well-formed messages about documents that exist.",
  [HOST + "lsp_impl/active_initialized.rs", HOST + "lsp_impl/state.rs"], [("text document handlers", HOST + "lsp_impl/active_initialized.rs"), ("AnalyzerWrapper", HOST + "lsp_impl/state.rs")], ["messages sent by the server"])
P("H08", "After the handshake every file of every folder is known",
  "After initialized, exactly the files below the workspace folders are loaded, through the client if the server has no file system of its own, and have their content; the server asks for watched-file events once, and progress is shown (begun, reported for each folder, ended, under the token created) if and only if the client can show it and agrees to; indexing does not depend on that.",
  ["configurations", "histories"], "every set of folders and files and every combination of capabilities",
  "No test covers indexing.",
  [HOST + "lsp/workspace.rs", HOST + "lsp/progress.rs", HOST + "lsp_impl/initializing.rs", HOST + "fs.rs"], [("WorkspaceManager::index", HOST + "lsp/workspace.rs"), ("ProgressManager", HOST + "lsp/progress.rs")], ["messages sent by the server"])
P("H09", "The server ends when it is told to or its client is gone",
  "The server's future completes after exit, whatever messages follow or arrive while it is still at work, when the client's stream of messages ends, in any state and with requests outstanding, and when it is cancelled and its channels close; what was sent before the stream ended is still answered, and nothing is answered after exit. "
  "A server that has ended can be dropped, so that its process ends, whatever it was doing in the background.",
  ["schedules", "histories"], "every state, every way to end and every message that may come after",
  "Tests end with a well-behaved shutdown.",
  [HOST + "lib.rs", HOST + "lsp/request.rs"], [("AnalyzerHost::start", HOST + "lib.rs"), ("run_protocol_machine", HOST + "lib.rs")], ["AnalyzerHost::start"])
P("H10", "The server asks for what it needs and offers what it has",
  "Whatever a client says about itself, the result of a successful initialize asks the client for the notifications that the server's knowledge of a document rests on: that it is opened, closed and changed. With workspace folders, the server registers, once, for the creation, the change and the deletion of the P4 files in them. "
  "A request that the result offers is answered by an implementation of it, not refused as one of an unknown method.",
  ["inputs", "configurations"], "every combination of the capabilities and settings of a client that the server looks at, and every request it may offer",
  "Tests look at one client, and at no request that the server does not implement.",
  [HOST + "lsp_impl/active_uninitialized.rs", HOST + "lsp_impl/initializing.rs", HOST + "lsp_impl/active_initialized.rs"], [("create_initialize_result", HOST + "lsp_impl/active_uninitialized.rs"), ("on_client_initialized", HOST + "lsp_impl/initializing.rs")], ["create_initialize_result", "on_client_initialized"])
P("D01", "The driver hands every message over, in order, once",
  "The console driver passes every message framed on the standard input to the host in order, exactly once and unchanged, however the bytes arrive, and writes every message of the host to the standard output in order, whole and without delay. "
  "When the input ends, or brings something that is not a message, the host's incoming channel is closed, so that the server ends with its client; when the host closes its outgoing channel, the driver writes what is left and ends without error. "
  "Cancelling the driver at any moment ends it with the cancellation error and closes both channels. "
  "The buffer driver passes on exactly the released messages, in order, keeps what the host sends until it is asked for, and emptying its buffers while it reads loses only messages and never ends it.",
  ["schedules", "histories"], "every sequence of messages, every way their bytes arrive and end, and every interleaving of the reading, writing, host and cancelling threads",
  "Unit tests exchange one or two messages on one schedule; the standard input is never fed and never ends.",
  [P4A + "driver.rs", P4A + "driver/buffer_driver.rs"], [("Driver threads", P4A + "driver.rs"), ("BufferStruct", P4A + "driver/buffer_driver.rs")], ["the host's channels", "the standard output", "Driver::start"])
P("W01", "An LSIF dump lists every file once, where it was asked for",
  "Given the folders of a workspace and of the system headers, wherever they lie (beside each other, one inside the other, or the same), the LSIF generator ends by itself and leaves a dump in the requested folder under the requested name (by default P4Analysis.lsif in the current folder), replacing an older one. "
  "The dump holds one JSON entry per line, no two entries share an id, and there is exactly one document vertex, of language P4 and with the file's URI, for every P4 file below the two folders, and none for any other file.",
  ["configurations", "schedules"], "every arrangement of the two folders, every set of files in them, every choice of output, and every interleaving of the generator, the server and the driver's threads",
  "No test covers the generator.",
  ["crates/lsif-p4/src/lsif_writer.rs", "crates/lsif-p4/src/lsif_generator.rs"], [("LsifWriter", "crates/lsif-p4/src/lsif_writer.rs"), ("LsifGenerator", "crates/lsif-p4/src/lsif_generator.rs")], ["the dump"])
P("M01", "The WebAssembly adapter carries every message both ways",
  "Every buffer given to sendRequest that holds a JSON-RPC message reaches the server unchanged and in order, whatever text it holds and however long it is; a buffer that does not hold one is refused with an error and changes nothing. "
  "Every message of the server - responses, requests, and logs at the level the client has set - is handed to the callback at once, in order, exactly once, as one whole JSON-RPC 2.0 message. "
  "The server's future completes after exit and after stop, in any state, and messages sent later are refused with an error; nothing else ends it.",
  ["inputs", "histories"], "every sequence of buffers, valid or not, sent at any pace, with stop at any point",
  "No test covers the adapter.",
  ["crates/p4-analyzer-wasm/src/lib.rs", "crates/p4-analyzer-wasm/src/buffer.rs"], [("LspServer", "crates/p4-analyzer-wasm/src/lib.rs"), ("to_buffer / to_u8_vec", "crates/p4-analyzer-wasm/src/buffer.rs")], ["LspServer::send_request", "the response callback", "LspServer::start"])
P("T01", "The Node adapter forwards every message of a stream",
  "Every message arriving on the standard input (a header part with a Content-Length field and possibly others, an empty line, and a body of that many bytes) is passed to the analyzer exactly once, in order and unchanged, as soon as its last byte has arrived, however the stream is cut into chunks, whatever part of its memory a chunk shows, and whether or not earlier messages have been taken already. "
  "Every message of the analyzer is written to the standard output as a Content-Length field with its length in bytes, an empty line and the message, in order. "
  "Stopping reaches the analyzer, and is refused before it is started; when the analyzer ends or fails, starting it is settled accordingly and the standard input is paused, and not before.",
  ["inputs", "histories", "schedules"], "every message sequence, header layout, body and chunking, every interleaving of chunks with the queued forwarding",
  "No test covers the adapter, and a stream's chunking decides how many messages, or how much of one, a call of the handler sees.",
  ["packages/p4-analyzer/src/server/index.ts"], [("onReceiveRequestBuffer", "packages/p4-analyzer/src/server/index.ts"), ("onResponseBuffer", "packages/p4-analyzer/src/server/index.ts"), ("start, stop", "packages/p4-analyzer/src/server/index.ts")], ["the messages passed to the analyzer", "the standard output"])
P("N01", "The native file system finds exactly a folder's files and reads them faithfully",
  "Enumerating a folder for a pattern yields every matching file below it (at any depth) exactly once, no folder and nothing outside it, as a URI that leads back to the file, whatever characters the folder's and the files' names hold and whichever folders cannot be read; "
  "reading a file yields exactly its text, and nothing when it is missing, unreadable, not UTF-8 or not a file of the local file system. "
  "Neither ends the server or prints to the standard output, which carries the protocol.",
  ["configurations", "fault_sequences", "inputs"], "every tree of files and folders with any names, every file content, and every kind of URI",
  "The tests list two folders of plain names and read ASCII files.",
  [P4A + "native_fs.rs"], [("NativeFs", P4A + "native_fs.rs")], ["NativeFs::enumerate_folder", "NativeFs::file_contents", "the standard output"])
