// node replay.js MODULE.ts CASES.json: runs scenarios on the real module (transpiled, types removed),
// with the WebAssembly module and the standard streams replaced by recording stand-ins.
const ts = require("/opt/veriftools/node/node_modules/typescript");
const fs = require("fs");
const js = ts.transpileModule(fs.readFileSync(process.argv[2], "utf8"), { compilerOptions: { target: ts.ScriptTarget.ES2021, module: ts.ModuleKind.CommonJS } }).outputText;
const cases = JSON.parse(fs.readFileSync(process.argv[3], "utf8"));
const hex = b => Buffer.from(b).toString("hex");
let log = null;
process.on("unhandledRejection", e => log && log.push(["unhandled rejection", String(e)]));
process.on("uncaughtException", e => log && log.push(["uncaught exception", String(e)]));
const turn = () => new Promise(r => setImmediate(r));
async function rest() { for (let i = 0; i < 3; i++) await turn(); }
async function run(c) {
	const o = { requests: [], out: "", log: [], paused: { stdin: false, stdout: false }, stops: 0, settled: "pending", stopped: [] };
	log = o.log;
	const handlers = { data: [], end: [], close: [] };
	let imm = [], tmo = [], tid = 0, end = null, callback = null, released = [];
	class LspServer {
		constructor(cb) { callback = cb; }
		start() { return new Promise((ok, bad) => { end = { ok, bad }; }); }
		sendRequest(b) { o.requests.push(hex(b)); return c.slow ? new Promise(r => released.push(r)) : Promise.resolve(); }
		stop() { o.stops++; }
		free() {}
	}
	const guard = f => { try { return f(); } catch (e) { log.push(["uncaught exception", String(e)]); } };
	const on = (n, f) => { (handlers[n] = handlers[n] || []).push(f); return stdin; };
	const stdin = { on, once: on, addListener: on, pause() { o.paused.stdin = true; return stdin; }, resume() { o.paused.stdin = false; return stdin; }, unref() { return stdin; }, destroy() { o.paused.stdin = true; return stdin; },
		off(n, f) { handlers[n] = (handlers[n] || []).filter(g => g !== f); return stdin; }, removeListener(n, f) { return stdin.off(n, f); }, removeAllListeners(n) { for (const k in handlers) if (!n || k === n) handlers[k] = []; return stdin; } };
	const stdout = { write(b, e, f) { o.out += typeof b === "string" ? Buffer.from(b, typeof e === "string" ? e : "utf8").toString("hex") : hex(b); const g = typeof e === "function" ? e : f; if (g) imm.push([0, g]); return true; },
		pause() { o.paused.stdout = true; return stdout; }, end() { o.paused.stdout = true; return stdout; }, on() { return stdout; }, once() { return stdout; }, cork() {}, uncork() {} };
	const proc = { stdin, stdout, stderr: { write() { return true; } }, nextTick: (f, ...a) => process.nextTick(() => guard(() => f(...a))), on() { return proc; }, once() { return proc; }, exit() { o.log.push(["exit", ""]); }, platform: "linux", env: {}, argv: [] };
	const si = (f, ...a) => { const i = ++tid; imm.push([i, () => f(...a)]); return { id: i, ref() { return this; }, unref() { return this; } }; };
	const st = (f, d, ...a) => { const i = ++tid; tmo.push([i, () => f(...a), d]); return { id: i, ref() { return this; }, unref() { return this; } }; };
	const cl = t => { if (t) { imm = imm.filter(x => x[0] !== t.id); tmo = tmo.filter(x => x[0] !== t.id); } };
	const m = { exports: {} };
	const wasm = { LspServer };
	new Function("exports", "require", "module", "process", "setImmediate", "setTimeout", "clearImmediate", "clearTimeout", "console", js)(
		m.exports, n => { if (n.endsWith("p4_analyzer_wasm")) return wasm; throw new Error("module " + n); }, m, proc, si, st, cl, cl, { log() {}, error() {}, warn() {}, info() {}, debug() {}, trace() {} });
	const immediates = async () => { const q = imm; imm = []; for (const [, f] of q) { guard(f); await rest(); } };
	const idle = async () => { await rest(); for (let n = 0; imm.length || tmo.length; n++) { if (n > 100) { o.log.push(["hang", ""]); return; } await immediates(); const q = tmo.sort((a, b) => a[2] - b[2]); tmo = []; for (const [, f] of q) { guard(f); await rest(); } } };
	const inst = new m.exports.default();
	for (const s of c.steps) {
		if (s[0] === "start") { Promise.resolve(guard(() => inst.start())).then(() => { o.settled = "fulfilled"; }, e => { o.settled = "rejected: " + (e && e.message); }); await rest(); }
		else if (s[0] === "chunk") {
			const pad = Buffer.from(s[2], "hex"), body = Buffer.from(s[1], "hex"), post = Buffer.from(s[3], "hex");
			const whole = new Uint8Array(pad.length + body.length + post.length); whole.set(pad, 0); whole.set(body, pad.length); whole.set(post, pad.length + body.length);
			const chunk = Buffer.from(whole.buffer, pad.length, body.length);
			for (const h of handlers.data.slice()) guard(() => h(chunk));
			await rest();
		}
		else if (s[0] === "immediates") { await immediates(); await rest(); }
		else if (s[0] === "idle") await idle();
		else if (s[0] === "release") { const q = released; released = []; q.forEach(r => r()); await rest(); }
		else if (s[0] === "respond") { if (callback) guard(() => callback(Buffer.from(s[1], "hex"))); await rest(); }
		else if (s[0] === "stop") { try { inst.stop(); o.stopped.push("ok"); } catch (e) { o.stopped.push("threw"); } await rest(); }
		else if (s[0] === "end") { if (end) s[1] ? end.ok() : end.bad(new Error("The server was stopped.")); await rest(); await idle(); }
	}
	log = null;
	return o;
}
(async () => {
	const out = [];
	for (const c of cases) out.push(await run(c));
	fs.writeFileSync(process.argv[4], JSON.stringify(out));
	process.exit(0);
})();
