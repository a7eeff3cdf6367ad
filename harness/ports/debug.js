// The debugging page without a browser: node debug.js ROOT.  Opens ROOT/debug-ts.html with its scripts; one event a line.
const fs = require("fs"), vm = require("vm"), path = require("path");
const root = process.argv[2];
const html = fs.readFileSync(path.join(root, "debug-ts.html"), "utf8");
const escaped = s => String(s).replace(/&/g, "&amp;").replace(/</g, "&lt;").replace(/>/g, "&gt;");

function open() {
  const elements = {}, all = [], events = {};
  const on = who => (what, f) => { (who[what] = who[what] || []).push(f); };
  function element(tag, attrs) {
    const evs = {}, has = a => new RegExp("(^|\\s)" + a + "(?=[\\s=/]|$)").test(attrs);
    const of = a => (new RegExp("(?:^|\\s)" + a + "=[\"']([^\"']*)[\"']").exec(attrs) || [])[1];
    let inner = "";
    const el = {
      id: of("id") || "", name: of("name") || "", type: of("type") || "", tagName: tag.toUpperCase(), value: of("value") || "", className: of("class") || "",
      checked: has("checked"), disabled: has("disabled"), style: {}, dataset: {}, events: evs, children: [],
      addEventListener: on(evs), removeEventListener() {}, setAttribute(k, v) { el[k] = v === "" ? true : v; }, removeAttribute(k) { el[k] = false; },
      getAttribute: k => el[k], focus() {}, click: () => fire(el, "click"),
      get innerHTML() { return inner; }, set innerHTML(v) { inner = String(v); },
      get innerText() { return inner; }, set innerText(v) { inner = escaped(v).replace(/\n/g, "<br>"); },
      get textContent() { return inner; }, set textContent(v) { inner = escaped(v); },
      append: (...xs) => { for (const x of xs) inner += typeof x === "string" ? escaped(x) : x.tagName === "BR" ? "<br>" : x.innerHTML; },
      appendChild: x => { el.append(x); return x; }, replaceChildren: (...xs) => { inner = ""; el.append(...xs); },
      insertAdjacentHTML: (_, x) => { inner += x; },
    };
    const list = () => el.className.split(/\s+/).filter(x => x);
    el.classList = {
      add: (...cs) => { el.className = [...new Set([...list(), ...cs])].join(" "); },
      remove: (...cs) => { el.className = list().filter(x => !cs.includes(x)).join(" "); },
      contains: c => list().includes(c),
      toggle: (c, force) => {
        const yes = force === undefined ? !list().includes(c) : !!force;
        if (yes) el.classList.add(c); else el.classList.remove(c);
        return yes;
      },
    };
    return el;
  }
  const body = html.replace(/<!--[\s\S]*?-->/g, "").replace(/<script[^>]*>[\s\S]*?<\/script>/g, "").replace(/<style[^>]*>[\s\S]*?<\/style>/g, "");
  let select = null;
  for (const m of body.matchAll(/<(\w+)((?:\s[^>]*)?)>/g)) {
    const el = element(m[1].toLowerCase(), m[2]);
    if (el.tagName === "OPTION" && select) {
      el.selected = /\sselected\b/.test(m[2]);
      if (!select.children.length || el.selected) select.value = el.value;
      select.children.push(el);
      continue;
    }
    if (el.tagName === "SELECT") select = el;
    all.push(el);
    if (el.id && !elements[el.id]) elements[el.id] = el;
  }
  const fire = (el, what) => {
    const e = { type: what, target: el, currentTarget: el, preventDefault() {}, stopPropagation() {} };
    for (const f of el.events[what] || []) f.call(el, e);
    if (typeof el["on" + what] === "function") el["on" + what](e);
  };
  const find = q => q[0] === "#" ? elements[q.slice(1)] || null : all.find(e => e.tagName === q.toUpperCase()) || null;
  const w = {
    addEventListener: on(events), console: { log() {}, warn() {}, error() {} }, setTimeout: f => { f(); return 0; }, clearTimeout() {}, queueMicrotask,
    document: {
      addEventListener: on(events), getElementById: id => elements[id] || null, querySelector: find, createElement: tag => element(tag, ""),
      createTextNode: x => x, readyState: "complete", body: element("body", ""),
      querySelectorAll: q => all.filter(e => e === find(q) || e.tagName === q.toUpperCase()), getElementsByName: n => all.filter(e => e.name === n),
    },
  };
  w.window = w; w.globalThis = w; w.self = w;
  vm.createContext(w);
  const scripts = [...html.replace(/<!--[\s\S]*?-->/g, "").matchAll(/<script([^>]*)>([\s\S]*?)<\/script>/g)].map(m => {
    const src = /\bsrc=["']([^"']*)["']/.exec(m[1]);
    return src ? fs.readFileSync(path.join(root, src[1]), "utf8") : m[2];
  });
  vm.runInContext(scripts.join("\n;\n"), w);
  for (const what of ["DOMContentLoaded", "load"]) for (const f of events[what] || []) f.call(w, { type: what, target: w });
  const ids = { cm: "cmevla", x: "exp_rafsi", g: "glides", m: "mz", y: "y_hyphens", c: "consonants" };
  const put = (el, key, v) => {
    if (el[key] === v) return;
    el[key] = v;
    if (el.tagName === "INPUT") fire(el, "input");
    fire(el, "change");
  };
  const press = el => { if (!el.disabled) fire(el, "click"); };
  return {
    use(e) {
      if (e.op === "text") put(elements.the, "value", e.text);
      else if (e.op === "mode") put(elements.mode, "value", e.mode);
      else if (e.op === "set") {
        const el = elements[ids[e.f]];
        if (el.tagName === "SELECT") {
          const o = el.children.find(o => o.value.toUpperCase() === e.v);
          put(el, "value", o.value);
        } else put(el, "checked", e.v);
      } else if (e.op === "default") press(elements.default);
      else press(elements.ko);
    },
    seen() {
      const v = f => { const el = elements[ids[f]]; return el.tagName === "SELECT" ? el.value.toUpperCase() : !!el.checked; };
      return {
        html: elements.out.innerHTML, bad: elements.out.classList.contains("err"), off: !!elements.cmevla.disabled, ready: !elements.ko.disabled,
        now: { ...Object.fromEntries(Object.keys(ids).map(f => [f, v(f)])), mode: elements.mode.value, text: elements.the.value },
      };
    },
  };
}

let page = null, rest = "";
const buf = Buffer.alloc(1 << 16);
for (;;) {
  let n;
  try { n = fs.readSync(0, buf, 0, buf.length, null); } catch (e) { if (e.code === "EAGAIN") continue; throw e; }
  if (n === 0) break;
  rest += buf.toString("latin1", 0, n);
  let at;
  while ((at = rest.indexOf("\n")) >= 0) {
    const e = JSON.parse(rest.slice(0, at));
    rest = rest.slice(at + 1);
    let err = "";
    try { if (e.op === "form") { page = null; page = open(); } else page.use(e); } catch (x) { err = String((x && x.name) || x); }
    let seen = null;
    try { seen = page && page.seen(); } catch (x) { err = err || String((x && x.name) || x); }
    fs.writeSync(1, JSON.stringify([err, seen]) + "\n");
  }
}
