// what the stand-ins know and record
export const hooks = { delay: async () => {} };
export let w = null, log = [], commands = {};
let starts = 0, stops = 0;
export const names = (p) => w.names(p);
export function set(x) { w = x; log = []; starts = 0; stops = 0; commands = {}; }
export async function start(server, options) {
	const mine = log, here = w, n = ++starts, s = server.run ?? server;
	const args = JSON.stringify(s.args) === '["server"]' ? "" : " with " + JSON.stringify(s.args);
	mine.push(["start", names(s.command) + args, (options.initializationOptions ?? {}).logLevel]);
	await hooks.delay();
	if (here.broken.includes(n)) { mine.push(["start failed"]); throw new Error("cannot start"); }
	mine.push(["started"]);
}
export async function stop() {
	const mine = log, here = w, n = ++stops;
	mine.push(["stop"]);
	await hooks.delay();
	if (here.stuck.includes(n)) { mine.push(["stop failed"]); throw new Error("cannot stop"); }
	mine.push(["stopped"]);
}
