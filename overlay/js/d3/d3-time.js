// Stand-in for d3-time, which is not installed here: the intervals of its version 3 interface.
"use strict";
const minute = 6e4, day = 864e5, week = 7 * day;

function timeInterval(floori, offseti, count, field) {
  const t0 = new Date(), t1 = new Date();
  function interval(date) {
    date = arguments.length === 0 ? new Date() : new Date(+date);
    floori(date);
    return date;
  }
  interval.floor = (date) => { date = new Date(+date); floori(date); return date; };
  interval.ceil = (date) => {
    date = new Date(+date - 1);
    floori(date); offseti(date, 1); floori(date);
    return date;
  };
  interval.round = (date) => {
    const d0 = interval(date), d1 = interval.ceil(date);
    return date - d0 < d1 - date ? d0 : d1;
  };
  interval.offset = (date, step) => {
    date = new Date(+date);
    offseti(date, step == null ? 1 : Math.floor(step));
    return date;
  };
  interval.range = (start, stop, step) => {
    const range = [];
    start = interval.ceil(start);
    step = step == null ? 1 : Math.floor(step);
    if (!(start < stop) || !(step > 0)) return range;
    let previous;
    do {
      range.push((previous = new Date(+start)));
      offseti(start, step); floori(start);
    } while (previous < start && start < stop);
    return range;
  };
  interval.filter = (test) => timeInterval(
    (date) => { if (date >= date) while (floori(date), !test(date)) date.setTime(date - 1); },
    (date, step) => {
      if (date >= date) {
        if (step < 0) while (++step <= 0) { while (offseti(date, -1), !test(date)) {} }
        else while (--step >= 0) { while (offseti(date, +1), !test(date)) {} }
      }
    });
  if (count) {
    interval.count = (start, end) => {
      t0.setTime(+start); t1.setTime(+end);
      floori(t0); floori(t1);
      return Math.floor(count(t0, t1));
    };
    interval.every = (step) => {
      step = Math.floor(step);
      if (!isFinite(step) || !(step > 0)) return null;
      if (!(step > 1)) return interval;
      return interval.filter(field ? (d) => field(d) % step === 0 : (d) => interval.count(0, d) % step === 0);
    };
  }
  return interval;
}

const tz = (start, end) => (end.getTimezoneOffset() - start.getTimezoneOffset()) * minute;
const local = {
  year: timeInterval((d) => { d.setMonth(0, 1); d.setHours(0, 0, 0, 0); }, (d, n) => { d.setFullYear(d.getFullYear() + n); },
    (a, b) => b.getFullYear() - a.getFullYear(), (d) => d.getFullYear()),
  month: timeInterval((d) => { d.setDate(1); d.setHours(0, 0, 0, 0); }, (d, n) => { d.setMonth(d.getMonth() + n); },
    (a, b) => b.getMonth() - a.getMonth() + (b.getFullYear() - a.getFullYear()) * 12, (d) => d.getMonth()),
  day: timeInterval((d) => { d.setHours(0, 0, 0, 0); }, (d, n) => { d.setDate(d.getDate() + n); },
    (a, b) => (b - a - tz(a, b)) / day, (d) => d.getDate() - 1),
};
const utc = {
  year: timeInterval((d) => { d.setUTCMonth(0, 1); d.setUTCHours(0, 0, 0, 0); }, (d, n) => { d.setUTCFullYear(d.getUTCFullYear() + n); },
    (a, b) => b.getUTCFullYear() - a.getUTCFullYear(), (d) => d.getUTCFullYear()),
  month: timeInterval((d) => { d.setUTCDate(1); d.setUTCHours(0, 0, 0, 0); }, (d, n) => { d.setUTCMonth(d.getUTCMonth() + n); },
    (a, b) => b.getUTCMonth() - a.getUTCMonth() + (b.getUTCFullYear() - a.getUTCFullYear()) * 12, (d) => d.getUTCMonth()),
  day: timeInterval((d) => { d.setUTCHours(0, 0, 0, 0); }, (d, n) => { d.setUTCDate(d.getUTCDate() + n); },
    (a, b) => (b - a) / day, (d) => d.getUTCDate() - 1),
};
function everyYear(get, set, floor) {
  return (k) => !isFinite((k = Math.floor(k))) || !(k > 0) ? null : timeInterval(
    (d) => { set(d, Math.floor(get(d) / k) * k); floor(d); }, (d, n) => { set(d, get(d) + n * k); });
}
local.year.every = everyYear((d) => d.getFullYear(), (d, y) => d.setFullYear(y), (d) => { d.setMonth(0, 1); d.setHours(0, 0, 0, 0); });
utc.year.every = everyYear((d) => d.getUTCFullYear(), (d, y) => d.setUTCFullYear(y), (d) => { d.setUTCMonth(0, 1); d.setUTCHours(0, 0, 0, 0); });

const names = ["Sunday", "Monday", "Tuesday", "Wednesday", "Thursday", "Friday", "Saturday"];
names.forEach((name, i) => {
  const l = timeInterval((d) => { d.setDate(d.getDate() - ((d.getDay() + 7 - i) % 7)); d.setHours(0, 0, 0, 0); },
    (d, n) => { d.setDate(d.getDate() + n * 7); }, (a, b) => (b - a - tz(a, b)) / week);
  const u = timeInterval((d) => { d.setUTCDate(d.getUTCDate() - ((d.getUTCDay() + 7 - i) % 7)); d.setUTCHours(0, 0, 0, 0); },
    (d, n) => { d.setUTCDate(d.getUTCDate() + n * 7); }, (a, b) => (b - a) / week);
  exports["time" + name] = l; exports["time" + name + "s"] = l.range;
  exports["utc" + name] = u; exports["utc" + name + "s"] = u.range;
  if (i == 0) {
    exports.timeWeek = l; exports.timeWeeks = l.range;
    exports.utcWeek = u; exports.utcWeeks = u.range;
  }
});
for (const [p, m] of [["time", local], ["utc", utc]])
  for (const n of ["year", "month", "day"]) {
    const N = p + n[0].toUpperCase() + n.slice(1);
    exports[N] = m[n];
    exports[N + "s"] = m[n].range;
  }
exports.timeInterval = timeInterval;
Object.setPrototypeOf(module.exports, require("./lacks").lacks("d3-time"));
