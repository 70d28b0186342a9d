// What a stand-in lacks cannot be judged; using it is told apart from other failures.
"use strict";
const fine = new Set(["__esModule", "default", "then", "toJSON", "constructor", "valueOf", "toString", "inspect", "nodeType"]);
exports.lacks = (what, names) => new Proxy(Object.create(Object.prototype), {
  get: (o, k) => {
    if (typeof k != "string" || fine.has(k) || k in o || (names && !names.has(k))) return o[k];
    throw new Error(`stand-in lacks ${k} of ${what}`);
  },
});
