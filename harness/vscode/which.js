import * as world from "./world.js";
export default async function which(name, options = {}) {
	await world.hooks.delay();
	if (name === "jarl" && world.w.env) return world.w.env;
	if (options.nothrow) return null;
	throw new Error("not found");
}
