// node run.cjs MODULE JOBS SLICE SLICES SEED BUDGET: the chunks of one slice, one line each.
const fs = require('fs');
const [file, jobs, slice, slices, seed, budget] = process.argv.slice(2);
const code = new WebAssembly.Module(fs.readFileSync(file));
const fresh = () => new WebAssembly.Instance(code, {}).exports;
const t0 = Date.now();
let m = fresh();
const mine = fs.readFileSync(jobs, 'utf8').split('\n').filter((l) => l).filter((_, i) => i % slices == slice);
for (const j of mine) {
  if (Date.now() - t0 > budget * 1000) break;
  const line = Buffer.from(j + ' ' + seed);
  const buf = () => new Uint8Array(m.memory.buffer, m.vp_buf(), 1024);
  try {
    buf().set(line);
    const n = m.vp_run(line.length);
    console.log(Buffer.from(buf().slice(0, n)).toString());
  } catch (e) {
    const b = Buffer.from(buf());
    console.log(j + ' TRAP ' + e.message + ' ' + b.slice(0, b.indexOf(0)).toString().replace(/\n/g, ' '));
    m = fresh();
  }
}
