// Stand-in for d3-scale-chromatic: any colours will do.
"use strict";
const scheme = ["c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9"];
module.exports = Object.create(new Proxy({}, {
  get: (o, k) => (k == "__esModule" ? undefined : String(k).startsWith("scheme") ? scheme : () => "c0"),
}));
