// Stand-in for d3-selection: selections, data joins and events on the document given as a global.
"use strict";
function find(node, sel, all) {
  if (typeof sel == "function") sel = sel.call(node, node.__data__);
  if (sel == null) return all ? [] : null;
  if (typeof sel != "string") return sel;
  return all ? node.querySelectorAll(sel) : node.querySelector(sel);
}
const creator = (name) => (typeof name == "function" ? name : () => document.createElement(name));

class EnterNode {
  constructor(parent, datum) { this._parent = parent; this._next = null; this.__data__ = datum; }
  appendChild(c) { return this._parent.insertBefore(c, this._next); }
  insertBefore(c, next) { return this._parent.insertBefore(c, next); }
  querySelector(s) { return this._parent.querySelector(s); }
  querySelectorAll(s) { return this._parent.querySelectorAll(s); }
}
const value = (v) => (typeof v == "function" ? v : () => v);

class Selection {
  constructor(groups, parents) { this._groups = groups; this._parents = parents; }
  select(sel) {
    return new Selection(this._groups.map((g) => g.map((n, i) => {
      if (!n) return undefined;
      const s = typeof sel == "function" ? sel.call(n, n.__data__, i, g) : find(n, sel, false);
      if (s && "__data__" in n) s.__data__ = n.__data__;
      return s || undefined;
    })), this._parents);
  }
  selectAll(sel) {
    const groups = [], parents = [];
    for (const g of this._groups)
      g.forEach((n, i) => {
        if (!n) return;
        groups.push(Array.from(typeof sel == "function" ? sel.call(n, n.__data__, i, g) : find(n, sel, true)));
        parents.push(n);
      });
    return new Selection(groups, parents);
  }
  filter(f) {
    const match = typeof f == "function" ? f : function () { return this.matches(f); };
    return new Selection(this._groups.map((g) => g.filter((n, i) => n && match.call(n, n.__data__, i, g))), this._parents);
  }
  data(val, key) {
    if (!arguments.length) return this.nodes().map((n) => n.__data__);
    val = value(val);
    const update = [], enter = [], exit = [];
    this._groups.forEach((g, j) => {
      const parent = this._parents[j];
      const data = Array.from(val.call(parent, parent && parent.__data__, j, this._parents));
      const u = new Array(data.length), e = new Array(data.length), x = new Array(g.length);
      if (key) {
        const byKey = new Map();
        g.forEach((n, i) => {
          if (!n) return;
          const k = key.call(n, n.__data__, i, g) + "";
          if (byKey.has(k)) x[i] = n; else byKey.set(k, n);
        });
        data.forEach((d, i) => {
          const k = key.call(parent, d, i, data) + "";
          const n = byKey.get(k);
          if (n) { u[i] = n; n.__data__ = d; byKey.delete(k); } else e[i] = new EnterNode(parent, d);
        });
        g.forEach((n, i) => { if (n && !x[i] && Array.from(byKey.values()).includes(n)) x[i] = n; });
      } else {
        data.forEach((d, i) => {
          if (g[i]) { u[i] = g[i]; u[i].__data__ = d; } else e[i] = new EnterNode(parent, d);
        });
        for (let i = data.length; i < g.length; i++) if (g[i]) x[i] = g[i];
      }
      for (let i = 0; i < data.length; i++)
        if (e[i]) {
          let k = i + 1;
          while (k < data.length && !u[k]) k++;
          e[i]._next = u[k] || null;
        }
      update.push(u); enter.push(e); exit.push(x);
    });
    const s = new Selection(update, this._parents);
    s._enter = enter; s._exit = exit;
    return s;
  }
  enter() { return new Selection(this._enter || this._groups.map((g) => new Array(g.length)), this._parents); }
  exit() { return new Selection(this._exit || this._groups.map((g) => new Array(g.length)), this._parents); }
  join(onenter, onupdate, onexit) {
    let enter = this.enter(), update = this, exit = this.exit();
    enter = typeof onenter == "function" ? onenter(enter) : enter.append(onenter + "");
    if (onupdate != null) update = onupdate(update);
    if (onexit == null) exit.remove(); else onexit(exit);
    return enter && update ? enter.merge(update).order() : update;
  }
  merge(other) {
    other = typeof other.selection == "function" ? other.selection() : other;
    return new Selection(this._groups.map((g, j) => {
      const o = other._groups[j] || [];
      const m = [];
      for (let i = 0; i < Math.max(g.length, o.length); i++) m[i] = g[i] || o[i];
      return m;
    }), this._parents);
  }
  selection() { return this; }
  order() {
    for (const g of this._groups) {
      let next = null;
      for (let i = g.length - 1; i >= 0; i--) {
        const n = g[i];
        if (!n) continue;
        if (next && n.nextSibling !== next) next.parentNode.insertBefore(n, next);
        next = n;
      }
    }
    return this;
  }
  sort(cmp = (a, b) => (a < b ? -1 : a > b ? 1 : 0)) {
    return new Selection(this._groups.map((g) => g.filter((n) => n).sort((a, b) => cmp(a.__data__, b.__data__))), this._parents).order();
  }
  call(f, ...a) { f(this, ...a); return this; }
  nodes() { return this._groups.flat().filter((n) => n); }
  node() { return this.nodes()[0] || null; }
  size() { return this.nodes().length; }
  empty() { return !this.node(); }
  each(f) { for (const g of this._groups) g.forEach((n, i) => { if (n) f.call(n, n.__data__, i, g); }); return this; }
  datum(v) { return arguments.length ? this.property("__data__", v) : this.node().__data__; }
  attr(name, v) {
    if (arguments.length < 2) return this.node().getAttribute(name);
    v = value(v);
    return this.each(function (d, i, g) {
      const x = v.call(this, d, i, g);
      if (x == null) this.removeAttribute(name); else this.setAttribute(name, x);
    });
  }
  style(name, v) {
    if (arguments.length < 2) return this.node().style[name];
    v = value(v);
    return this.each(function (d, i, g) { this.style[name] = v.call(this, d, i, g); });
  }
  property(name, v) {
    if (arguments.length < 2) return this.node()[name];
    v = value(v);
    return this.each(function (d, i, g) {
      const x = v.call(this, d, i, g);
      if (x == null && name != "__data__") delete this[name]; else this[name] = x;
    });
  }
  classed(names, v) {
    const list = names.trim().split(/\s+/);
    if (arguments.length < 2) return list.every((c) => this.node().classes().includes(c));
    v = value(v);
    return this.each(function (d, i, g) {
      let cs = this.classes().filter((c) => !list.includes(c));
      if (v.call(this, d, i, g)) cs = cs.concat(list);
      this.setAttribute("class", cs.join(" "));
    });
  }
  text(v) {
    if (!arguments.length) return this.node().textContent;
    v = value(v);
    return this.each(function (d, i, g) { const x = v.call(this, d, i, g); this.textContent = x == null ? "" : x; });
  }
  html(v) { if (v === "" || v == null) return this.text(""); throw new Error("stand-in lacks html of selection"); }
  append(name) {
    const create = creator(name);
    return this.select(function (d, i, g) { return this.appendChild(create.call(this, d, i, g)); });
  }
  insert(name, before) {
    const create = creator(name);
    return this.select(function (d, i, g) {
      return this.insertBefore(create.call(this, d, i, g), before == null ? null : find(this, before, false));
    });
  }
  remove() { return this.each(function () { if (this.parentNode) this.parentNode.removeChild(this); }); }
  raise() { return this.each(function () { this.parentNode.appendChild(this); }); }
  lower() { return this.each(function () { this.parentNode.insertBefore(this, this.parentNode.firstChild); }); }
  on(types, f) {
    const names = (types + "").trim().split(/\s+/);
    if (arguments.length < 2) return this.node().listeners[names[0]];
    return this.each(function () {
      for (const n of names)
        if (f == null) delete this.listeners[n];
        else this.listeners[n] = (event) => f.call(this, event, this.__data__);
    });
  }
  dispatch(type) { return this.each(function () { this.fire(type); }); }
  *[Symbol.iterator]() { yield* this.nodes(); }
}
exports.select = (sel) => new Selection([[typeof sel == "string" ? document.querySelector(sel) || undefined : sel]], [document]);
exports.selectAll = (sel) => new Selection([typeof sel == "string" ? Array.from(document.querySelectorAll(sel)) : Array.from(sel || [])], [document]);
exports.selection = () => exports.select(document);
exports.create = (name) => exports.select(document.createElement(name));
const { lacks } = require("./lacks");
Object.setPrototypeOf(Selection.prototype, lacks("selection"));
Object.setPrototypeOf(module.exports, lacks("d3-selection"));
