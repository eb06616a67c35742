import * as fs from "fs";
import * as world from "./world.js";
export * from "fs";
export async function pathExists(p) { await world.hooks.delay(); return fs.existsSync(p); }
export const pathExistsSync = fs.existsSync;
