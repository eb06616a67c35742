// jobs are begun in order, at most `concurrency` at a time
export default class PQueue {
	constructor({ concurrency = Infinity } = {}) { this.concurrency = concurrency; this.jobs = []; this.pending = 0; }
	get size() { return this.jobs.length; }
	add(f) { return new Promise((ok, no) => { this.jobs.push([f, ok, no]); this.next(); }); }
	next() {
		while (this.pending < this.concurrency && this.jobs.length) {
			const [f, ok, no] = this.jobs.shift();
			this.pending++;
			(async () => f())().then(ok, no).finally(() => { this.pending--; this.next(); });
		}
	}
}
