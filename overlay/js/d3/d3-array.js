// Stand-in for d3-array: the common summaries.
"use strict";
exports.group = (values, key) => {
  const m = new Map();
  for (const v of values) {
    const k = key(v);
    m.has(k) ? m.get(k).push(v) : m.set(k, [v]);
  }
  return m;
};
exports.groups = (values, key) => Array.from(exports.group(values, key));
exports.rollup = (values, reduce, key) => new Map(Array.from(exports.group(values, key), ([k, v]) => [k, reduce(v)]));
exports.sum = (values, f = (v) => v) => { let s = 0; for (const v of values) s += +f(v) || 0; return s; };
exports.max = (values, f = (v) => v) => { let m; for (const v of values) { const x = f(v); if (x != null && (m === undefined || x > m)) m = x; } return m; };
exports.min = (values, f = (v) => v) => { let m; for (const v of values) { const x = f(v); if (x != null && (m === undefined || x < m)) m = x; } return m; };
exports.extent = (values, f) => [exports.min(values, f), exports.max(values, f)];
exports.ascending = (a, b) => (a < b ? -1 : a > b ? 1 : a >= b ? 0 : NaN);
exports.descending = (a, b) => exports.ascending(b, a);
const bisect = (right) => (a, x, lo = 0, hi = a.length) => {
  while (lo < hi) {
    const mid = (lo + hi) >>> 1;
    if (right ? a[mid] <= x : a[mid] < x) lo = mid + 1; else hi = mid;
  }
  return lo;
};
exports.bisectLeft = bisect(false);
exports.bisectRight = exports.bisect = bisect(true);
exports.bisector = (f) => ({
  left: (a, x, lo, hi) => bisect(false)(a.map((v) => +f(v)), +x, lo, hi),
  right: (a, x, lo, hi) => bisect(true)(a.map((v) => +f(v)), +x, lo, hi),
});
Object.setPrototypeOf(module.exports, require("./lacks").lacks("d3-array"));
