// Drives editors/code/src (bundled with stand-ins for what it imports): replays histories of requests, or records random ones.
//   node run.js replay VECTORS SEED | record N SEED OUT        (in a scratch directory SCRATCH/dist)
import * as fs from "fs";
import * as path from "path";
import * as world from "./world.js";
import { Lsp } from "JARL/lsp";
import * as extension from "JARL/extension";

const S = path.dirname(__dirname);
let state = 1;
const rnd = (n) => { state = (Math.imul(state, 1103515245) + 12345) & 0x7fffffff; return (state >>> 8) % n; };
const tick = () => new Promise((r) => setImmediate(r));
world.hooks.delay = async () => { for (let k = rnd(4); k > 0; k--) await tick(); };
process.on("unhandledRejection", () => {});
const bin = path.join(S, "bundled", "bin", "jarl"), env = path.join(S, "elsewhere", "jarl");
const own = (name, there) => path.join(S, "own", there ? name : "no-" + name);
function enter(w, broken, stuck) {
	fs.rmSync(bin, { force: true }); if (w.bundled) fs.writeFileSync(bin, "");
	const folders = w.folders.map((f, i) => path.join(S, f.exists ? "yes" : "non", "abc"[i].repeat(f.len)));
	world.set({ ...w, root: folders, names: (p) => (p === bin ? "bundled" : p === env ? "environment" : path.basename(p)), env: w.env ? env : null,
		set: w.set.map((s) => ({ strategy: s.strategy || undefined, path: s.path ? own(s.path, s.there) : undefined })), broken, stuck });
}
const context = () => ({ subscriptions: [] });
const settled = (p) => p.then(() => "ok", () => "error");
async function quiet() { for (let k = 0, n = -1; k < 60; k++) { await tick(); if (world.log.length !== n) { n = world.log.length; k = 0; } } }
function binaryOf(lsp) {
	const of = (f) => { try { return f(); } catch { return ""; } };
	const b = of(() => lsp.getBinaryPath()), c = of(() => lsp.getClient());
	return !b !== !c ? "inconsistent" : b ? world.names(b) : "";
}
async function run(v, how) {
	enter(v.world, v.broken, v.stuck);
	let answers = [], lsp;
	if (how === "extension") {
		const c = context(); let api;
		for (const k of v.ops) {
			if (k === "start") api = extension.activate(c);
			else if (k === "restart") settled(Promise.resolve(world.commands["jarl.restart"]()));
			else extension.deactivate();
			if (rnd(2)) await quiet();
		}
		await quiet();
		lsp = api.__private.ctx.lsp; answers = null;
	} else {
		lsp = new Lsp(context());
		const ps = [];
		for (const k of v.ops) {
			ps.push(settled(lsp[k]()));
			if (how === "each") await Promise.race([ps[ps.length - 1], quiet()]); else for (let j = rnd(5); j > 0; j--) await tick();
		}
		await quiet();
		for (const p of ps) answers.push(await Promise.race([p, tick().then(() => "none")]));
	}
	return { log: world.log.slice(), answers, status: binaryOf(lsp) };
}
(async () => {
	for (const d of ["bundled/bin", "elsewhere", "own"]) fs.mkdirSync(path.join(S, d), { recursive: true });
	for (let f = 0; f < 4; f++) fs.writeFileSync(own("own" + f, true), "");
	for (const c of "abc") for (let n = 1; n < 4; n++) fs.mkdirSync(path.join(S, "yes", c.repeat(n)), { recursive: true });
	process.chdir(path.join(S, "own"));
	const [what, a, b, out] = process.argv.slice(2);
	state = Number(b) + 1;
	if (what === "replay") {
		let n = 0;
		for (const l of fs.readFileSync(a, "utf8").split("\n")) {
			if (!l) continue;
			const v = JSON.parse(l);
			const hows = ["at once", "each"];
			if (v.ops[0] === "start" && !v.ops.slice(1).includes("start")) hows.push("extension");
			for (const how of hows) {
				const r = await run(v, how);
				const want = { log: v.log, answers: r.answers && v.answers, status: v.status };
				n++;
				if (JSON.stringify(r) !== JSON.stringify(want)) console.log("BAD " + JSON.stringify({ what: `requests made ${how}: ${JSON.stringify(r)} instead of ${JSON.stringify(want)}`, case: v }));
			}
		}
		console.log("OUT " + JSON.stringify({ replayed: n }));
	} else {
		const pick = (x) => x[rnd(x.length)], bool = () => rnd(2) === 1, f = fs.openSync(out, "w");
		for (let k = 0; k < Number(a); k++) {
			const n = rnd(4), folders = [...Array(n)].map(() => ({ len: 1 + rnd(3), exists: rnd(3) > 0 }));
			const set = [...Array(n + 1)].map((_, i) => { const s = pick(["", "bundled", "environment", "path"]), p = rnd(3) ? "own" + i : ""; return { strategy: s, path: p, there: p !== "" && rnd(3) > 0 }; });
			const v = { world: { trusted: rnd(4) > 0, bundled: rnd(3) > 0, env: bool(), folders, set, level: pick(["", "trace", "error"]) },
				ops: [...Array(1 + rnd(9))].map(() => pick(["start", "stop", "restart"])), broken: [1, 2, 3, 4].filter(() => rnd(4) === 0), stuck: [1, 2, 3].filter(() => rnd(4) === 0) };
			const r = await run(v, bool() ? "at once" : "each");
			fs.writeSync(f, JSON.stringify({ ...v, ...r }) + "\n");
		}
		fs.closeSync(f);
		console.log("OUT " + JSON.stringify({ recorded: Number(a) }));
	}
})();
