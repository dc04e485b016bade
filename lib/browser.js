// Drives the WebAssembly build of twiggy-wasm-api as the glue that wasm-bindgen
// generates would. node browser.js API.wasm JOBS.json OUT.json
const fs = require('fs');
const [, , apiPath, jobsPath, outPath] = process.argv;
const module_ = new WebAssembly.Module(fs.readFileSync(apiPath));
const imports = {};
for (const i of WebAssembly.Module.imports(module_)) {
  imports[i.module] = imports[i.module] || {};
  imports[i.module][i.name] = () => { throw new Error('import ' + i.name); };
}
const GETTER = { regex: 'using_regexps' };

class Api {
  constructor() {
    this.w = new WebAssembly.Instance(module_, imports).exports;
    this.o = new Map();
  }
  bytes(b) {
    const p = this.w.__wbindgen_malloc(b.length) >>> 0;
    new Uint8Array(this.w.memory.buffer, p, b.length).set(b);
    return [p, b.length];
  }
  text(call) {
    const r = this.w.__wbindgen_malloc(8) >>> 0;
    call(r);
    const v = new DataView(this.w.memory.buffer);
    const p = v.getUint32(r, true), n = v.getUint32(r + 4, true);
    const s = Buffer.from(new Uint8Array(this.w.memory.buffer, p, n)).toString('hex');
    this.w.__wbindgen_free(p, n);
    this.w.__wbindgen_free(r, 8);
    return s;
  }
  do(c) {
    const w = this.w;
    if (c[0] === 'parse') {
      const [p, n] = this.bytes(fs.readFileSync(c[2]));
      this.o.set(c[1], w.items_parse(p, n));
      return {};
    }
    if (c[0] === 'new') {
      this.o.set(c[2], w[c[1] + '_new']());
      return { obs: this.look(c[1], c[2], c[3]) };
    }
    if (c[0] === 'set') {
      const [, cmd, slot, key, v, looks] = c, ptr = this.o.get(slot);
      if (key === 'add_function') {
        const [p, n] = this.bytes(Buffer.from(v, 'utf8'));
        w[cmd + '_add_function'](ptr, p, n);
      } else w[cmd + '_set_' + (GETTER[key] || key)](ptr, typeof v === 'boolean' ? +v : Number(v));
      return { obs: this.look(cmd, slot, looks) };
    }
    if (c[0] === 'run') {
      const [, cmd, slot, items] = c;
      return { out: this.text(r => w['items_' + cmd](r, this.o.get(items), this.o.get(slot))) };
    }
    throw new Error('unknown ' + c[0]);
  }
  look(cmd, slot, keys) {
    const o = {};
    for (const [k, kind] of keys) {
      const v = this.w[cmd + '_' + (GETTER[k] || k)](this.o.get(slot));
      o[k] = kind === 'flag' ? v !== 0 : String(v >>> 0);
    }
    return o;
  }
}

const out = [];
for (const cmds of JSON.parse(fs.readFileSync(jobsPath, 'utf8'))) {
  let api = new Api(), dead = false;
  const rs = [];
  for (const c of cmds) {
    if (c[0] === 'reset') { api = new Api(); dead = false; rs.push({}); continue; }
    if (dead) { rs.push({ err: 'dead' }); continue; }
    try { rs.push(api.do(c)); } catch (e) { rs.push({ err: String(e).slice(0, 200) }); dead = true; }
  }
  out.push(rs);
}
fs.writeFileSync(outPath, JSON.stringify(out));
