// Stand-in for d3-scale: continuous, ordinal and sequential scales as far as a viewer can need them.
"use strict";
function continuous(args, kind) {
  let domain = [0, 1], range = [0, 1], clamp = false, unknown;
  const toDomain = (d) => Array.from(d, (v) => (kind == "time" ? new Date(+v) : +v));
  function scale(x) {
    x = +x;
    if (isNaN(x)) return unknown;
    const d0 = +domain[0], d1 = +domain[domain.length - 1], r0 = range[0], r1 = range[range.length - 1];
    if (clamp) x = Math.max(Math.min(d0, d1), Math.min(Math.max(d0, d1), x));
    const t = d1 - d0 ? (x - d0) / (d1 - d0) : isNaN(d1) ? NaN : 0.5;
    if (typeof r0 != "number") return t < 0.5 ? r0 : r1;
    return r0 * (1 - t) + r1 * t;
  }
  scale.domain = function (d) { return arguments.length ? ((domain = toDomain(d)), scale) : domain.slice(); };
  scale.range = function (r) { return arguments.length ? ((range = Array.from(r)), scale) : range.slice(); };
  scale.rangeRound = scale.range;
  scale.clamp = function (c) { return arguments.length ? ((clamp = !!c), scale) : clamp; };
  scale.unknown = function (u) { return arguments.length ? ((unknown = u), scale) : unknown; };
  scale.invert = (y) => {
    const d0 = +domain[0], d1 = +domain[domain.length - 1], r0 = range[0], r1 = range[range.length - 1];
    const v = d0 + ((y - r0) / (r1 - r0)) * (d1 - d0);
    return kind == "time" ? new Date(v) : v;
  };
  scale.nice = () => scale;
  scale.ticks = () => [];
  scale.tickFormat = () => String;
  scale.copy = () => continuous([domain, range], kind).clamp(clamp);
  if (args.length == 1) scale.range(args[0]);
  else if (args.length > 1) scale.domain(args[0]).range(args[1]);
  return scale;
}
exports.scaleTime = (...a) => continuous(a, "time");
exports.scaleUtc = (...a) => continuous(a, "time");
exports.scaleLinear = (...a) => continuous(a, "linear");
exports.scaleOrdinal = (...a) => {
  const range = a[a.length - 1] || [], seen = [];
  return (v) => { if (!seen.includes(v)) seen.push(v); return range[seen.indexOf(v) % range.length]; };
};
exports.scaleBand = (...a) => Object.assign(continuous(a, "linear"), { bandwidth: () => 1, padding() { return this; } });
exports.scaleSequential = (d, f) => (v) => f((v - d[0]) / (d[1] - d[0]));
Object.setPrototypeOf(module.exports, require("./lacks").lacks("d3-scale"));
