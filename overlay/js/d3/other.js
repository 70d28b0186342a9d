// Stand-in for anything else: nothing of it is needed to compute amounts.
"use strict";
const any = new Proxy(function () {}, { get: (o, k) => (k === Symbol.toPrimitive ? () => "" : any), apply: () => any, construct: () => any });
// bundled imports are looked up on the prototype of the module
module.exports = Object.create(new Proxy({}, { get: (o, k) => (k == "__esModule" ? undefined : any) }));
