// A document as far as the viewer uses one: elements, texts, attributes, listeners and simple selectors.
"use strict";

function parseCompound(s) {
  const c = { tag: null, id: null, classes: [], first: false, last: false };
  const re = /([#.:]?)([\w*-]+)/gy;
  let m, n = 0;
  while ((m = re.exec(s))) {
    n = re.lastIndex;
    if (m[1] == "") c.tag = m[2] == "*" ? null : m[2].toLowerCase();
    else if (m[1] == "#") c.id = m[2];
    else if (m[1] == ".") c.classes.push(m[2]);
    else if (m[2] == "first-child") c.first = true;
    else if (m[2] == "last-child") c.last = true;
    else throw new Error("stand-in lacks selector " + s);
  }
  if (n != s.length) throw new Error("stand-in lacks selector " + s);
  return c;
}
const cache = new Map();
function parse(sel) {
  let p = cache.get(sel);
  if (!p) cache.set(sel, (p = sel.split(",").map((s) => s.replace(/\s*>\s*/g, " >").trim().split(/\s+/).map((x) => ({ child: x[0] == ">", ...parseCompound(x.replace(/^>/, "")) })))));
  return p;
}
function matchesCompound(e, c) {
  if (c.tag && e.tagName.toLowerCase() != c.tag) return false;
  if (c.id && e.getAttribute("id") != c.id) return false;
  if (c.classes.length && !c.classes.every((k) => e.classes().includes(k))) return false;
  if (c.first && !(e.parentNode && e.parentNode.childNodes[0] === e)) return false;
  if (c.last && !(e.parentNode && e.parentNode.childNodes[e.parentNode.childNodes.length - 1] === e)) return false;
  return true;
}
function matches(e, parts) {
  let i = parts.length - 1;
  if (!matchesCompound(e, parts[i])) return false;
  let direct = parts[i].child;
  for (i--, e = e.parentNode; i >= 0; e = e.parentNode) {
    if (!e || !e.tagName) return false;
    if (matchesCompound(e, parts[i])) { direct = parts[i].child; i--; }
    else if (direct) return false;
  }
  return true;
}

class Element {
  constructor(doc, tag) {
    this.ownerDocument = doc;
    this.tagName = tag.toUpperCase();
    this.childNodes = [];
    this.parentNode = null;
    this.attributes = {};
    this.listeners = {};
    this.style = {};
    this.ownText = "";
    this.clientWidth = 1200;
    this.clientHeight = 800;
  }
  get children() { return this.childNodes; }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  get nextSibling() {
    const s = this.parentNode ? this.parentNode.childNodes : [];
    return s[s.indexOf(this) + 1] || null;
  }
  get parentElement() { return this.parentNode; }
  classes() { return (this.attributes.class || "").split(/\s+/).filter((c) => c); }
  get className() { return this.attributes.class || ""; }
  set className(v) { this.attributes.class = v; }
  get id() { return this.attributes.id || ""; }
  set id(v) { this.attributes.id = v; }
  getAttribute(n) { return n in this.attributes ? this.attributes[n] : null; }
  hasAttribute(n) { return n in this.attributes; }
  setAttribute(n, v) { this.attributes[n] = String(v); }
  removeAttribute(n) { delete this.attributes[n]; }
  detach() {
    if (this.parentNode) {
      const s = this.parentNode.childNodes;
      s.splice(s.indexOf(this), 1);
      this.parentNode = null;
    }
  }
  appendChild(c) { return this.insertBefore(c, null); }
  append(...cs) { cs.forEach((c) => this.appendChild(c)); }
  insertBefore(c, next) {
    c.detach();
    const i = next ? this.childNodes.indexOf(next) : this.childNodes.length;
    if (i < 0) throw new Error("insertBefore: not a child");
    this.childNodes.splice(i, 0, c);
    c.parentNode = this;
    return c;
  }
  removeChild(c) {
    if (c.parentNode !== this) throw new Error("removeChild: not a child");
    c.detach();
    return c;
  }
  remove() { this.detach(); }
  replaceChildren(...cs) {
    for (const c of this.childNodes.slice()) c.detach();
    this.ownText = "";
    cs.forEach((c) => this.appendChild(c));
  }
  get textContent() { return this.ownText + this.childNodes.map((c) => c.textContent).join(""); }
  set textContent(v) { this.replaceChildren(); this.ownText = v == null ? "" : String(v); }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  get innerHTML() { return this.textContent; }
  set innerHTML(v) {
    if (v !== "") throw new Error("stand-in lacks innerHTML of elements");
    this.replaceChildren();
  }
  get options() { return this.childNodes; }
  get value() { return this.ownValue ?? this.attributes.value ?? (this.tagName == "OPTION" ? this.textContent : ""); }
  set value(v) { this.ownValue = v == null ? "" : String(v); }
  get valueAsDate() { return this.value ? new Date(this.value) : null; }
  set valueAsDate(d) { this.value = d == null || isNaN(d) ? "" : d.toISOString().slice(0, 10); }
  get valueAsNumber() { return this.valueAsDate ? +this.valueAsDate : NaN; }
  // the sizes of svg elements
  size(n) {
    if (!["SVG", "RECT"].includes(this.tagName)) return undefined;
    const v = this.attributes[n] ?? "100%";
    const value = v.endsWith("%") ? (parseFloat(v) / 100) * (n == "width" ? this.clientWidth : this.clientHeight) : parseFloat(v);
    return { baseVal: { value }, animVal: { value } };
  }
  get width() { return this.ownWidth ?? this.size("width"); }
  set width(v) { this.ownWidth = v; }
  get height() { return this.ownHeight ?? this.size("height"); }
  set height(v) { this.ownHeight = v; }
  addEventListener(n, f) { this.listeners[n] = f; }
  fire(type) {
    const f = this.listeners[type];
    if (!f) return false;
    f.call(this, { type, currentTarget: this, target: this, preventDefault() {}, stopPropagation() {} });
    return true;
  }
  matches(sel) { return parse(sel).some((p) => matches(this, p)); }
  *walk() { for (const c of this.childNodes) { yield c; yield* c.walk(); } }
  querySelectorAll(sel) {
    const ps = parse(sel), out = [];
    for (const e of this.walk()) if (ps.some((p) => matches(e, p))) out.push(e);
    return out;
  }
  querySelector(sel) {
    const ps = parse(sel);
    for (const e of this.walk()) if (ps.some((p) => matches(e, p))) return e;
    return null;
  }
}

Object.setPrototypeOf(Element.prototype, require("./d3/lacks").lacks("elements", new Set(("dataset classList closest contains after before prepend replaceWith replaceChild " +
  "cloneNode nodeName nodeValue ownerSVGElement outerHTML outerText insertAdjacentElement insertAdjacentHTML insertAdjacentText previousSibling nextElementSibling " +
  "previousElementSibling firstElementChild lastElementChild childElementCount removeEventListener dispatchEvent click focus blur getElementsByTagName getElementsByClassName " +
  "getBoundingClientRect getBBox offsetWidth offsetHeight offsetLeft offsetTop scrollIntoView selectedOptions namespaceURI rows tBodies tHead cells insertRow insertCell " +
  "add item toggleAttribute getAttributeNames title createTextNode createDocumentFragment createEvent head forms defaultView form stepUp stepDown list labels rootNode getRootNode isConnected").split(" "))));
class Document extends Element {
  constructor() { super(null, "#document"); this.tagName = ""; }
  createElement(tag) { return new Element(this, tag); }
  createElementNS(ns, tag) { return new Element(this, tag); }
  getElementById(id) {
    for (const e of this.walk()) if (e.getAttribute("id") == id) return e;
    return null;
  }
  get body() { return this.querySelector("body"); }
  get documentElement() { return this.childNodes[0]; }
}

const voids = new Set(["input", "link", "meta", "br", "img", "hr"]);
const unescape = (s) => s.replace(/&(lt|gt|amp|quot|#39|#(\d+));/g, (_, n, d) => (d ? String.fromCharCode(d) : { lt: "<", gt: ">", amp: "&", quot: '"' }[n]));

// reads simple, well-formed HTML; scripts and styles end where browsers end them
exports.parseHTML = (html) => {
  const doc = new Document();
  let at = doc, i = 0;
  const re = /<!--[\s\S]*?-->|<!DOCTYPE[^>]*>|<\/([\w-]+)\s*>|<([\w-]+)((?:\s+[\w:-]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s>]+))?)*)\s*(\/?)>/giy;
  while (i < html.length) {
    if (html[i] != "<") {
      let j = html.indexOf("<", i);
      if (j < 0) j = html.length;
      if (at.childNodes.length == 0) at.ownText += unescape(html.slice(i, j).trim());
      i = j;
      continue;
    }
    re.lastIndex = i;
    const m = re.exec(html);
    if (!m) { i++; continue; }
    i = re.lastIndex;
    if (m[1]) {
      let p = at;
      while (p.tagName && p.tagName != m[1].toUpperCase()) p = p.parentNode;
      if (p.tagName) at = p.parentNode;
    } else if (m[2]) {
      const e = doc.createElement(m[2]);
      for (const a of m[3].matchAll(/([\w:-]+)(?:\s*=\s*(?:"([^"]*)"|'([^']*)'|([^\s>]+)))?/g))
        e.setAttribute(a[1], unescape(a[2] ?? a[3] ?? a[4] ?? ""));
      at.appendChild(e);
      const tag = m[2].toLowerCase();
      if (tag == "script" || tag == "style") {
        let j = html.slice(i).search(new RegExp("</" + tag + "[\\s/>]", "i"));
        j = j < 0 ? html.length : i + j;
        e.ownText = html.slice(i, j);
        at = e;
        i = j;
      } else if (!voids.has(tag) && !m[4]) at = e;
    }
  }
  return doc;
};
