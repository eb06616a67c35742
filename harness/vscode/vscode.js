import * as world from "./world.js";
const nothing = { dispose() {} };
export class EventEmitter {
	constructor() { this.l = new Set(); this.event = (f) => { this.l.add(f); return { dispose: () => this.l.delete(f) }; }; }
	fire(x) { for (const f of [...this.l]) f(x); }
	dispose() {}
}
export const Uri = { file: (p) => ({ fsPath: p, scheme: "file", path: p, toString: () => "file://" + p }) };
export const window = { createOutputChannel: () => ({ appendLine() {}, show() {}, dispose() {} }), onDidChangeActiveTextEditor: () => nothing, showErrorMessage: async () => undefined, showInformationMessage: async () => undefined };
export const commands = { registerCommand: (n, f) => { world.commands[n] = f; return nothing; } };
export const workspace = {
	get isTrusted() { return world.w.trusted; },
	get workspaceFolders() { return world.w.root.length ? world.w.root.map((p, index) => ({ uri: Uri.file(p), name: p, index })) : undefined; },
	getConfiguration(ns, scope) {
		const f = scope === undefined ? -1 : world.w.root.indexOf((scope.uri ?? scope).fsPath) + 1;
		const s = ns !== "jarl" || f < 0 ? {} : world.w.set[f];
		const at = { executableStrategy: s.strategy, executablePath: s.path, logLevel: "warning" };
		return { get: (k, d) => at[k] ?? d, inspect: (k) => ({ key: k, globalValue: k === "logLevel" ? world.w.level || undefined : undefined, workspaceValue: at[k] }) };
	},
	onDidChangeConfiguration: () => nothing,
};
