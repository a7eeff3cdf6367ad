// The web page without a browser: node page.js ROOT.  Opens ROOT/index.html with its scripts; one event a line.
const fs = require("fs"), vm = require("vm"), path = require("path");
const root = process.argv[2];
const html = fs.readFileSync(path.join(root, "index.html"), "utf8");

function open() {
  let clock = 0, ids = 0, timers = [];
  const on = who => (what, f) => { (who[what] = who[what] || []).push(f); };
  const elements = {};
  function element(id, cls) {
    const events = {}, el = {
      id, value: "", className: cls, innerHTML: "", textContent: "", style: {}, events,
      addEventListener: on(events), removeEventListener() {}, setAttribute(k, v) { if (k === "class") el.className = v; else el[k] = v; },
      getAttribute: k => k === "class" ? el.className : el[k],
    };
    const list = () => el.className.split(/\s+/).filter(x => x);
    el.classList = {
      add: (...cs) => { el.className = [...new Set([...list(), ...cs])].join(" "); },
      remove: (...cs) => { el.className = list().filter(x => !cs.includes(x)).join(" "); },
      contains: c => list().includes(c),
      toggle: (c, force) => {
        const yes = force === undefined ? !list().includes(c) : !!force;
        if (yes) el.classList.add(c); else el.classList.remove(c);
        return yes;
      },
    };
    return el;
  }
  for (const m of html.matchAll(/<\w+\s([^>]*)>/g)) {
    const id = /\bid=["']([^"']*)["']/.exec(m[1]), cls = /\bclass=["']([^"']*)["']/.exec(m[1]);
    if (id) elements[id[1]] = element(id[1], cls ? cls[1] : "");
  }
  const events = {};
  const at = (f, ms, every, args) => { timers.push({ id: ++ids, due: clock + (+ms || 0), f, args }); return ids; };
  const w = {
    addEventListener: on(events), console: { log() {}, warn() {}, error() {} },
    setTimeout: (f, ms, ...args) => at(f, ms, 0, args), clearTimeout: id => { timers = timers.filter(t => t.id !== id); },
    requestAnimationFrame: f => at(f, 16, 0, []), queueMicrotask,
    document: {
      addEventListener: on(events), getElementById: id => elements[id] || null,
      querySelector: q => q[0] === "#" ? elements[q.slice(1)] || null : null, readyState: "loading",
    },
  };
  w.window = w; w.globalThis = w; w.self = w;
  vm.createContext(w);
  const scripts = [...html.matchAll(/<script[^>]*\bsrc=["']([^"']*)["']/g)].map(m => m[1]);
  vm.runInContext(scripts.map(s => fs.readFileSync(path.join(root, s), "utf8")).join("\n;\n"), w);
  const fire = (evs, what, target) => {
    for (const f of evs[what] || []) f.call(target, { type: what, target, currentTarget: target, preventDefault() {}, stopPropagation() {} });
    if (target && typeof target["on" + what] === "function") target["on" + what]({ type: what, target });
  };
  fire(events, "DOMContentLoaded", w);
  fire(events, "load", w);
  return {
    use(e) {
      if (e.op === "type") { elements.source.value = e.text; fire(elements.source.events, "input", elements.source); }
      else if (e.op === "wait") {
        const until = clock + 1000;
        for (;;) {
          timers.sort((a, b) => a.due - b.due || a.id - b.id);
          if (!timers.length || timers[0].due > until) break;
          const t = timers.shift();
          clock = Math.max(clock, t.due);
          t.f(...t.args);
        }
        clock = until;
      } else {
        const el = elements[{ brivla: "brivla", cmevla: "cmevla", easy: "ezmode" }[e.op]];
        fire(el.events, "click", el);
      }
    },
    seen: () => [elements["hard-mode"].innerHTML, ["brivla", "cmevla", "ezmode"].map(i => elements[i].classList.contains("active"))],
  };
}

let page = null, rest = "";
const buf = Buffer.alloc(1 << 16);
for (;;) {
  let n;
  try { n = fs.readSync(0, buf, 0, buf.length, null); } catch (e) { if (e.code === "EAGAIN") continue; throw e; }
  if (n === 0) break;
  rest += buf.toString("latin1", 0, n);
  let at;
  while ((at = rest.indexOf("\n")) >= 0) {
    const e = JSON.parse(rest.slice(0, at));
    rest = rest.slice(at + 1);
    let err = "";
    try { if (e.op === "open") { page = null; page = open(); } else page.use(e); } catch (x) { err = String((x && x.name) || x); }
    fs.writeSync(1, JSON.stringify([err, ...(page ? page.seen() : ["", []])]) + "\n");
  }
}
