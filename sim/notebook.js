// The document of a notebook, as far as the controls of displayed slides need it.
// Reads {els: [{tag, cls, attrs, parent}], scripts: [...], views: [{next, prev, label, steps}]}
// and writes what is seen after every click, or {unknown: ...} when a script needs more than this.
const vm = require("vm");
const input = JSON.parse(require("fs").readFileSync(0, "utf8"));
class Unknown extends Error {}
const raw = [], els = [];

function guard(obj, known, settable, what) {
  return new Proxy(obj, {
    get(t, p) {
      if (typeof p === "symbol" || p in t && known(p)) return t[p];
      throw new Unknown(what + "." + String(p));
    },
    set(t, p, v) {
      if (!settable(p)) throw new Unknown(what + "." + String(p) + " =");
      t[p] = v;
      return true;
    },
  });
}
const TEXTS = ["innerText", "textContent", "innerHTML"];
function matches(i, part) {
  const m = /^([a-zA-Z][\w-]*|\*)?((?:[.#][\w-]+)*)$/.exec(part);
  if (!m) throw new Unknown("selector " + part);
  if (m[1] && m[1] !== "*" && m[1].toLowerCase() !== raw[i].tag) return false;
  for (const x of m[2].match(/[.#][\w-]+/g) || []) {
    if (x[0] === "." && !raw[i].cls.includes(x.slice(1))) return false;
    if (x[0] === "#" && raw[i].attrs.id !== x.slice(1)) return false;
  }
  return true;
}
function select(sel, root) {
  const out = [];
  for (let i = 0; i < raw.length; i++) {
    for (const alt of sel.split(",")) {
      const parts = alt.trim().split(/\s+/);
      if (!matches(i, parts[parts.length - 1])) continue;
      let k = parts.length - 2;
      let ok = root < 0;
      for (let j = raw[i].parent; j >= 0; j = raw[j].parent) {
        if (j === root) ok = true;
        if (k >= 0 && matches(j, parts[k])) k--;
      }
      if (k < 0 && ok) { out.push(els[i]); break; }
    }
  }
  return out;
}
const queries = (root) => ({
  querySelector: (s) => select(String(s), root)[0] || null,
  querySelectorAll: (s) => select(String(s), root),
  getElementById: (s) => select("#" + s, root)[0] || null,
  getElementsByClassName: (s) => select("." + s, root),
});
input.els.forEach((e, i) => {
  const style = {display: e.attrs.style && /display:\s*none/.test(e.attrs.style) ? "none" : ""};
  const el = Object.assign({
    style: guard(style, () => true, (p) => p in {display: 0, visibility: 0}, "style"),
    disabled: "disabled" in e.attrs, hidden: "hidden" in e.attrs,
    innerText: e.text, textContent: e.text, innerHTML: e.text, onclick: null,
    addEventListener(ev, fn) {
      if (ev !== "click") throw new Unknown("event " + ev);
      e.clicks.push(fn);
    },
    setAttribute(k, v) { if (k === "disabled") el.disabled = true; else throw new Unknown("setAttribute " + k); },
    removeAttribute(k) { if (k === "disabled") el.disabled = false; else throw new Unknown("removeAttribute " + k); },
  }, queries(i));
  e.clicks = [];
  e.el = el;
  e.style = style;
  raw.push(e);
  els.push(guard(el, () => true, (p) => TEXTS.includes(p) || ["disabled", "hidden", "onclick"].includes(p), "element"));
  Object.defineProperty(e, "shownText", {get() {
    for (const t of TEXTS) if (el[t] !== e.text) return String(el[t]);
    return e.text;
  }});
});
function click(i) {
  if (raw[i].el.disabled) return;
  for (const fn of raw[i].clicks) fn({});
  if (raw[i].el.onclick) raw[i].el.onclick({});
}
function hidden(i) {
  for (let j = i; j >= 0; j = raw[j].parent)
    if (raw[j].style.display === "none" || raw[j].style.visibility === "hidden" || raw[j].el.hidden) return true;
  return false;
}
function look() {
  return input.views.map((v) => ({
    shown: v.steps.filter(([n, i]) => !hidden(i)).map(([n, i]) => n),
    label: v.label < 0 ? null : raw[v.label].shownText,
    next: v.next < 0 ? null : !raw[v.next].el.disabled,
    prev: v.prev < 0 ? null : !raw[v.prev].el.disabled,
  }));
}
let result;
try {
  const noop = () => {};
  const ctx = vm.createContext({document: guard(queries(-1), () => true, () => false, "document"),
                                console: {log: noop, error: noop, warn: noop}});
  for (const s of input.scripts) vm.runInContext(s, ctx, {timeout: 5000});
  const out = [look()];
  for (const [v, what] of input.clicks) {
    const i = input.views[v][what];
    if (i >= 0) click(i);
    out.push(look());
  }
  result = {states: out};
} catch (e) {
  if (e instanceof Unknown) result = {unknown: e.message};
  // a name that this document does not define
  else if (e && e.name === "ReferenceError" && /^(window|setTimeout|requestAnimationFrame|self|globalThis|navigator|MutationObserver|localStorage)\b/.test(e.message))
    result = {unknown: e.message};
  else result = {error: String(e && e.name) + ": " + String(e && e.message)};
}
process.stdout.write(JSON.stringify(result));
