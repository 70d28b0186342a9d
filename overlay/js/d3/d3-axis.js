// Stand-in for d3-axis: axes that draw nothing.
"use strict";
function axis() {
  const a = () => a;
  return new Proxy(a, { get: (o, k) => () => axisOf(a) });
}
const axisOf = (a) => new Proxy(a, { get: () => () => axisOf(a) });
for (const n of ["axisTop", "axisLeft", "axisRight", "axisBottom"]) exports[n] = () => axis();
Object.setPrototypeOf(module.exports, require("./lacks").lacks("d3-axis"));
