// Stand-in for d3-hierarchy: trees, and a treemap that lays everything out in the same place.
"use strict";
class Node {
  constructor(data) { this.data = data; this.depth = 0; this.height = 0; this.parent = null; }
  descendants() { return Array.from(this); }
  *[Symbol.iterator]() {
    // breadth first, as d3 iterates
    let current, next = [this];
    do {
      current = next; next = [];
      for (const n of current) { yield n; if (n.children) next.push(...n.children); }
    } while (next.length);
  }
  each(f) { for (const n of this) f(n); return this; }
  eachAfter(f) { if (this.children) for (const c of this.children) c.eachAfter(f); f(this); return this; }
  leaves() { return this.descendants().filter((n) => !n.children); }
  sum(f) {
    return this.eachAfter((n) => {
      let s = +f(n.data) || 0;
      if (n.children) for (const c of n.children) s += c.value;
      n.value = s;
    });
  }
  sort(cmp) { return this.eachAfter((n) => { if (n.children) n.children.sort(cmp); }); }
}
exports.stratify = () => {
  let id = (d) => d.id, parentId = (d) => d.parentId;
  function stratify(data) {
    const nodes = Array.from(data, (d, i) => {
      const n = new Node(d);
      n.id = String(id(d, i));
      const p = parentId(d, i);
      n.pid = p == null || p === "" ? null : String(p);
      return n;
    });
    const byId = new Map();
    for (const n of nodes) byId.set(n.id, byId.has(n.id) ? null : n);
    let root = null;
    for (const n of nodes) {
      if (n.pid == null) {
        if (root) throw new Error("multiple roots");
        root = n;
        continue;
      }
      const p = byId.get(n.pid);
      if (p === undefined) throw new Error("missing: " + n.pid);
      if (p === null) throw new Error("ambiguous: " + n.pid);
      (p.children = p.children || []).push(n);
      n.parent = p;
    }
    if (!root) throw new Error("no root");
    let seen = 0;
    for (const n of root) { n.depth = n.parent ? n.parent.depth + 1 : 0; seen++; }
    if (seen != nodes.length) throw new Error("cycle");
    return root;
  }
  stratify.id = (f) => ((id = f), stratify);
  stratify.parentId = (f) => ((parentId = f), stratify);
  return stratify;
};
exports.treemap = () => {
  const layout = (root) => { for (const n of root) { n.x0 = n.y0 = 0; n.x1 = n.y1 = 100; } return root; };
  const chain = new Proxy(layout, { get: () => () => chain });
  return chain;
};
exports.hierarchy = (data, children = (d) => d.children) => {
  const make = (d, parent) => {
    const n = new Node(d);
    n.parent = parent; n.depth = parent ? parent.depth + 1 : 0;
    const cs = children(d);
    if (cs && cs.length) n.children = Array.from(cs, (c) => make(c, n));
    return n;
  };
  return make(data, null);
};
Object.setPrototypeOf(module.exports, require("./lacks").lacks("d3-hierarchy"));
