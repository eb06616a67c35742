import * as world from "./world.js";
export class NotificationType { constructor(m) { this.method = m; } }
export class RequestType { constructor(m) { this.method = m; } }
export class ResponseError extends Error {}
export class LanguageClient {
	constructor(id, name, server, options) { this.server = server; this.options = options; }
	start() { return world.start(this.server, this.options); }
	stop() { return world.stop(); }
	dispose() { return world.stop(); }
	onNotification() { return { dispose() {} }; }
	onRequest() { return { dispose() {} }; }
}
