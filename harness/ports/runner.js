// Calls of the JavaScript version, one JSON array a line: node runner.js DIRECTORY
const fs = require("fs"), vm = require("vm"), path = require("path");
const files = ["data", "rafsi", "exceptions", "tarmi", "tools", "jvozba", "katna"];
const names = ("analyseBrivla isBrivla getVeljvo scoreLujvo getLujvo getLujvoWithAnalytics getRafsiIndices normalise isGismuOrLujvo " +
  "isGismu YHyphenSetting ConsonantSetting SETTINGS makeSettingsIterator selrafsiListFromRafsiList " +
  "RAFSI_LIST VALID MZ_VALID INITIAL ZIhEVLA_INITIAL BANNED_TRIPLES START_VOWEL_CLUSTERS FOLLOW_VOWEL_CLUSTERS HYPHENS").split(" ");
const script = new vm.Script("(() => {" + files.map(f => fs.readFileSync(path.join(process.argv[2], f + ".js"), "utf8")).join("\n") +
  "\nreturn {" + names.map(n => `${n}: typeof ${n} === "undefined" ? undefined : ${n}`).join(",") + "}})()");
const J = script.runInThisContext();
const funcs = J => {
// a setting that is null is left out; one with = in front is given as a string, as the README does
const one = (names, v) => v && (v[0] === "=" ? v.slice(1) : names[v]);
const opt = (s, more) => {
  const all = { yHyphens: one(J.YHyphenSetting, s[0]), expRafsiShapes: s[1], consonants: one(J.ConsonantSetting, s[2]), glides: s[3],
    allowMZ: s[4], ...more };
  const some = Object.fromEntries(Object.entries(all).filter(e => e[1] !== null));
  return Object.keys(some).length ? some : undefined;
};
const F = {
  analyse: (w, s) => J.analyseBrivla(w, opt(s)),
  veljvo: (w, s) => J.getVeljvo(w, opt(s)),
  score: (w, s) => J.scoreLujvo(w, opt(s)),
  isbrivla: (w, s) => J.isBrivla(w, opt(s)),
  build: (t, s, cm) => J.getLujvoWithAnalytics(t, opt(s, { generateCmevla: cm })),
  lujvo: (t, s, cm) => J.getLujvo(t, opt(s, { generateCmevla: cm })),
  meanings: (d, s) => J.selrafsiListFromRafsiList(d, opt(s)),
  indices: d => J.getRafsiIndices(d),
  normalise: w => J.normalise(w),
  isgismu: (w, s) => J.isGismu(w, s[4] === null ? undefined : s[4]),
  gismuorlujvo: (w, s) => J.isGismuOrLujvo(w, opt(s)),
  published: () => J.SETTINGS,
  // a history of iterators; an object that is iterable may also be used in a for loop
  odometer: h => {
    const its = {}, last = {}, seen = [], evs = [], enc = v => typeof v === "string" ? v : JSON.stringify(v);
    const take = it => { const r = it.next(); return r.done ? null : r.value; };
    for (const st of h) {
      const e = { op: st.op, id: st.id };
      evs.push(e);
      e.err = "";
      try {
        if (st.op === "new") {
          e.opts = st.given.map(w => w.map(enc));
          its[st.id] = J.makeSettingsIterator(st.given === null ? J.SETTINGS : st.given);
        } else if (st.op === "next") {
          const v = take(its[st.id]);
          e.out = [];
          e.fresh = true;
          if (v === null) e.err = "StopIteration";
          else if (!Array.isArray(v)) e.err = "BadResult";
          else { e.out = v.map(enc); e.fresh = !seen.includes(v); seen.push(v); last[st.id] = v; }
        } else if (st.op === "spoil") {
          if (last[st.id]) { last[st.id].reverse(); last[st.id].push("spoilt"); }
        } else if (st.op === "drain") {
          e.outs = [];
          for (let v = take(its[st.id]); v !== null && e.outs.length < 5000; v = take(its[st.id])) e.outs.push(v.map(enc));
        } else if (st.op === "iter") {
          const f = its[st.id][Symbol.iterator];
          e.same = typeof f !== "function" || f.call(its[st.id]) === its[st.id];
        }
      } catch (x) {
        e.err = String((x && x.name) || x);
        Object.assign(e, { out: [], outs: [], fresh: true, same: false });
        if (st.op === "new") return evs;
      }
    }
    return evs;
  },
};
return F;
};
const F = funcs(J);

// what the tables hold
const plain = v => v instanceof Map ? [...v] : v instanceof Set ? [...v] : v;
F.tables = () => require("crypto").createHash("sha256").update(JSON.stringify(TABLES.map(n => plain(J[n])))).digest("hex");
const TABLES = "RAFSI_LIST VALID MZ_VALID INITIAL ZIhEVLA_INITIAL BANNED_TRIPLES START_VOWEL_CLUSTERS FOLLOW_VOWEL_CLUSTERS HYPHENS SETTINGS".split(" ");

// one call: the event, and the object returned
function perform(F, [f, arg, s, cm], given) {
  const a0 = JSON.stringify([given, s]);
  let res, v;
  try { v = F[f](given, s, cm); res = "= " + JSON.stringify(v); } catch (e) { res = String((e && e.name) || e); }
  return [{ op: "call", key: JSON.stringify([f, arg, s, cm]), res, a0, a1: JSON.stringify([given, s]) }, v];
}
const copy = x => Array.isArray(x) ? x.slice() : x;
function spoil(v, how) {
  if (!Array.isArray(v)) return;
  v.forEach(x => spoil(x, how));
  if (how === 0) v.length = 0;
  else if (how === 1) v.push("spoilt");
  else { v.reverse(); v.unshift("spoilt"); }
}
// a history of calls, in which the caller writes into what it gave and got
F.service = steps => {
  const evs = [], held = [];
  let v;
  for (const st of steps) {
    if (st.op === "spoil") { spoil(v, st.how); evs.push({ op: "spoil", id: 0, how: st.how }); continue; }
    let given = copy(st.c[1]);
    if (st.op === "again" && Array.isArray(given)) { held.splice(0, held.length, ...given); given = held; }
    else if (st.op === "string" && Array.isArray(given)) given = given.join(" ");
    const [e, r] = perform(F, st.c, given);
    v = r;
    evs.push({ ...e, how: st.op });
  }
  return evs;
};
// each list of calls where nothing was called before
F.alone = lists => lists.flatMap(calls => {
  const G = funcs(script.runInNewContext({ console }));
  return calls.map(c => perform(G, c, copy(c[1]))[0]);
});
let rest = "";
const buf = Buffer.alloc(1 << 16);
for (;;) {
  let n;
  try { n = fs.readSync(0, buf, 0, buf.length, null); } catch (e) { if (e.code === "EAGAIN") continue; throw e; }
  if (n === 0) break;
  rest += buf.toString("latin1", 0, n);  // the requests are ASCII
  let at;
  while ((at = rest.indexOf("\n")) >= 0) {
    const [f, a, s, cm] = JSON.parse(rest.slice(0, at));
    rest = rest.slice(at + 1);
    let r;
    try { r = ["", F[f](a, s, cm)]; } catch (e) { r = [String((e && e.name) || e), null]; }
    fs.writeSync(1, JSON.stringify(r) + "\n");
  }
}
