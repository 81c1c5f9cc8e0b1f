// node wasm.js MODULE log CORPUS | show CORPUS INDEX OP
const fs = require("fs");
const [mod, mode, corpus, index, opname] = process.argv.slice(2);
const m = new WebAssembly.Module(fs.readFileSync(mod));
let x = new WebAssembly.Instance(m, {}).exports;
const b = fs.readFileSync(corpus);
let at = 0, i = 0, out = [];
const word = () => { const w = b.readUInt32LE(at); at += 4; return w; };
const names = {};
function load(d) { const p = x.buf(d.length) >>> 0; new Uint8Array(x.memory.buffer).set(d, p); }
while (at < b.length) {
  const flags = word(), p = word(), u = word(), n = word(), s = word();
  const pre = b.subarray(at, at + p), unit = b.subarray(at + p, at + p + u), suf = b.subarray(at + p + u, at + p + u + s);
  at += p + u + s;
  const k = i++;
  if (mode === "show" && k !== +index) continue;
  const d = Buffer.alloc(p + u * n + s);
  pre.copy(d, 0);
  if (n && u) d.fill(unit, p, p + u * n);
  suf.copy(d, p + u * n);
  load(d);
  if (!names[flags]) {
    names[flags] = [];
    for (let o = 0; o < x.ops(flags); o++) {
      const q = x.name_ptr(flags, o) >>> 0;
      names[flags].push(Buffer.from(x.memory.buffer.slice(q, q + x.name_len(flags, o))).toString());
    }
  }
  names[flags].forEach((name, o) => {
    if (mode === "show" && name !== opname) return;
    try {
      if (mode === "show") {
        const l = x.show(flags, o) >>> 0, q = x.text() >>> 0;
        process.stdout.write(Buffer.from(x.memory.buffer.slice(q, q + l)));
      } else {
        const h = BigInt.asUintN(64, x.run(flags, o));
        out.push(`${k} ${name} ${h.toString(16).padStart(16, "0")}`);
      }
    } catch (e) {
      if (mode === "show") process.stdout.write(`TRAP ${e}\n`);
      else out.push(`${k} ${name} 0000000000000000 panic`);
      x = new WebAssembly.Instance(m, {}).exports;
      load(d);
    }
  });
}
if (mode !== "show") fs.writeSync(1, out.join("\n") + "\n");
