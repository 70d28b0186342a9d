// driver.mjs BUNDLE BODY: runs the bundled viewer on exported documents.
// Reads requests, one JSON document per line, and answers each with one line.
// Every request gets the viewer anew: {tz, html, page, steps: [{op, ...}]} -> {results: [...]} or {error}.
import fs from "node:fs";
import path from "node:path";
import readline from "node:readline";
import vm from "node:vm";
import { createRequire } from "node:module";
const require = createRequire(import.meta.url);
const { parseHTML } = require("./dom.js");
const [bundle, body] = process.argv.slice(2);
const code = vm.compileFunction(fs.readFileSync(bundle, "utf8"), ["module", "exports", "require", "document", "window", "console"], { filename: "viewer.js" });
const quiet = new Proxy({}, { get: () => () => {} });

class Viewer {
  constructor(req) {
    this.doc = parseHTML(req.html);
    if (req.page) {
      const b = parseHTML(fs.readFileSync(body, "utf8"));
      const to = this.doc.body;
      for (const c of b.childNodes.slice()) to.appendChild(c);
    }
    const module = { exports: {} };
    globalThis.document = this.doc; // the stand-ins are not given one
    globalThis.window = globalThis;
    code(module, module.exports, require, this.doc, globalThis, quiet);
    this.viewer = module.exports;
  }
  get api() {
    if (!this.mods) this.mods = this.viewer.modules();
    const mods = this.mods;
    return new Proxy({}, {
      get: (o, k) => {
        for (const m of mods) if (k in m) return m[k];
        throw new Error("stand-in lacks " + String(k) + " of the viewer");
      },
    });
  }
  source(id) { return this.doc.getElementById(id).innerText; }
  date(d) { return this.api.dateToString(d); }
  range(s) {
    const { State } = this.api;
    State.StartDate = new Date(s.from);
    State.EndDate = new Date(s.to);
    State.ShowClosedAccounts = !!s.closed;
    return [State.StartDate, State.EndDate];
  }
  posting(p) { return [p.account.fullName, p.account.postings.indexOf(p)]; }
  group(g) {
    return {
      date: this.date(g.date), postings: g.postings.map((p) => this.posting(p)),
      sum: g.sum.toString(false), total: g.total.toString(false), balance: g.balance.toString(false),
    };
  }
  account(name) {
    const a = this.api.Accounts[name];
    if (!a) throw new Error("viewer without account " + name);
    return a;
  }
  exclude(s) { return (s.exclude || []).map((n) => this.account(n)); }
  interval(by) { return this.api.Aggregation[by]; }

  load() {
    const api = this.api;
    api.loadCommodities(this.source("importedCommodities"));
    api.loadPrices(this.source("importedPrices"));
    api.loadAccounts(this.source("importedAccounts"));
    api.loadTransactions(this.source("importedTransactions"));
    const coms = {}, accs = {};
    for (const c of Object.values(api.Commodities))
      coms[c.id] = {
        name: c.name, decimals: c.decimals,
        prices: c.prices.map((p) => [p.commodity.id, this.date(p.date), p.value.toString(false)]),
      };
    for (const a of Object.values(api.Accounts))
      accs[a.fullName] = {
        name: a.name, commodity: a.commodity.id, parent: a.parent ? a.parent.fullName : "", closed: a.closed ? this.date(a.closed) : "",
        children: a.children.map((c) => c.fullName), root: a.getRootAccount().fullName,
        path: a.withAllParents().map((p) => p.fullName),
        postings: a.postings.map((p) => ({
          account: p.account.fullName, date: this.date(p.transaction.posted), description: p.transaction.description, code: p.transaction.code || "",
          quantity: p.quantity.toString(false), balance: p.balance.toString(false), asserted: !!p.balance_asserted,
          notes: p.notes || [], tags: p.tags || {}, txNotes: p.transaction.notes || [],
          mates: p.transaction.postings.map((q) => this.posting(q)),
        })),
      };
    return { commodities: coms, accounts: accs, roots: api.Roots.map((a) => a.fullName), min: this.date(api.MinDate), max: this.date(api.MaxDate) };
  }
  parse(s) {
    const { Amount } = this.api;
    const a = Amount.parse(s.amount), t = a.toString();
    return [a.toString(false), t, Amount.parse(t).toString(false), String(a.sign + 0), String(a.isZero), String(a.toNumber() + 0)];
  }
  sum(s) {
    const { Amount } = this.api;
    const amounts = s.amounts.map((x) => Amount.parse(x));
    const t = Amount.clone(amounts[0]);
    for (const a of amounts.slice(1)) t.addIn(a, new Date(s.date));
    return [t.toString(false), ...amounts.map((a) => a.toString(false))];
  }
  cmp(s) {
    const { Amount } = this.api;
    const [a, b] = s.amounts.map((x) => Amount.parse(x));
    return [Math.sign(a.cmp(b)) + 0, Math.sign(a.cmp(b, true)) + 0].map(String);
  }
  convert(s) {
    const { Amount, Commodity } = this.api;
    try {
      return Commodity.find(s.to).convert(Amount.parse(s.amount), new Date(s.date)).toString(false);
    } catch (e) {
      return "refused: " + e.message;
    }
  }
  add(s) {
    const { Amount } = this.api;
    try {
      return Amount.parse(s.amounts[0]).addIn(Amount.parse(s.amounts[1]), new Date(s.date)).toString(false);
    } catch (e) {
      return "refused: " + e.message;
    }
  }
  trim(s) {
    const [from, to] = this.range(s);
    return this.api.trimToDateRange(this.account(s.account).postings, from, to).map((p) => this.posting(p));
  }
  postings(s) {
    const [from, to] = this.range(s);
    return this.account(s.account).withAllChildPostings(from, to, this.exclude(s)).map((p) => this.posting(p));
  }
  groups(s) {
    const [from, to] = this.range(s);
    return this.account(s.account).withAllChildPostingGroups(from, to, this.interval(s.by), this.exclude(s))
      .map((g) => ({ account: g.account.fullName, groups: g.groups.map((x) => this.group(x)) }));
  }
  topgroups(s) {
    this.range(s);
    return this.api.groupByWithSubAccounts(this.account(s.account), this.interval(s.by), s.max, { negated: !!s.negated, exclude: this.exclude(s) })
      .map((g) => ({ account: g.account ? g.account.fullName : "", groups: g.groups.map((x) => this.group(x)) }));
  }
  balances(s) {
    this.range(s);
    return this.account(s.account).withAllChildBalances(new Date(s.to), this.exclude(s))
      .map((b) => [b.account.fullName, b.balance.toString(false), b.total.toString(false)]);
  }
  top(s) {
    const a = this.account(s.account);
    return this.api.topN(a.postings, s.max, a.commodity).map((p) => this.posting(p));
  }
  shorten(s) { return s.names.map(([n, size]) => this.api.shortenAccountName(n, size)); }

  // the page
  start() { this.viewer.start(); return null; }
  element(sel) {
    const e = this.doc.querySelector(sel);
    if (!e) throw new Error("page without " + sel);
    return e;
  }
  input(s) {
    const e = this.doc.querySelector(s.sel);
    if (!e) return "no such input";
    if ("value" in s) e.value = s.value;
    if ("checked" in s) e.checked = s.checked;
    if (!e.fire("change")) throw new Error("nothing happens on changing " + s.sel);
    return null;
  }
  choose(s) {
    const e = this.doc.querySelector(s.sel);
    if (!e) return "no such choice";
    const k = e.options.findIndex((o) => o.textContent == s.text);
    if (k < 0) return "no such option";
    e.options.forEach((o, i) => { o.selected = i == k; });
    e.selectedIndex = k;
    e.value = e.options[k].value;
    if (!e.fire("change")) throw new Error("nothing happens on changing " + s.sel);
    return null;
  }
  click(s) {
    const es = this.doc.querySelectorAll(s.sel).filter((e) => s.text === undefined || e.textContent == s.text);
    if (es.length == 0) return null;
    const k = (s.pick || 0) % es.length, text = es[k].textContent;
    const row = es[k].parentNode ? es[k].parentNode.children.indexOf(es[k]) : -1;
    const own = (e) => e && e.children.find((x) => String(x.tagName).toLowerCase() == "title");
    const title = (own(es[k]) || own(es[k].parentNode))?.textContent ?? "";
    const bar = es.filter(own).indexOf(es[k]);
    es[k].fire(s.event || "click");
    return { of: es.length, at: k, column: row, text, title, bar };
  }
  read() {
    const text = (sel) => this.doc.querySelectorAll(sel).map((e) => e.textContent);
    const table = (sel) => {
      const t = this.doc.querySelector(sel);
      return t ? { head: t.querySelectorAll("th").map((e) => e.textContent), rows: t.querySelectorAll("tr").filter((r) => !r.querySelector("th")).map((r) => r.querySelectorAll("td").map((e) => e.textContent)) } : null;
    };
    const selected = (sel) => {
      const e = this.doc.querySelector(sel);
      return e ? e.options.map((o) => [o.textContent, !!o.selected]) : null;
    };
    const prop = (sel, p) => { const e = this.doc.querySelector(sel); return e ? e[p] : null; };
    return {
      accounts: text("#sidebar ul#accounts li"), roots: text("#sidebar select#root option"),
      heading: text("#main output#account span#name span.account a"), commodity: text("#main output#account span#commodity").join(""),
      table: table("#main section#view table"), details: table("div#details table"),
      titles: text("#main section#view svg title"),
      hidden: (this.doc.querySelector("div#details")?.getAttribute("hidden") ?? null) !== null,
      bars: this.doc.querySelectorAll("#main section#view svg rect").filter((e) => e.querySelector("title")).map((e) => [Number(e.getAttribute("x") ?? NaN), Number(e.getAttribute("width") ?? NaN)]), view: selected("#main select#view"), aggregate: selected("#main select#aggregate"),
      from: prop("#main #controls input#start", "value"), to: prop("#main #controls input#end", "value"),
      style: selected("#main select#aggregationStyle"), subs: prop("#main input#includeSubAccounts", "checked"), notes: prop("#main input#includeNotes", "checked"),
      location: prop("#main input#showLocation", "checked"), max: Number(prop("#main input#subAccountMax", "value") ?? -1), depth: Number(prop("#main input#balanceDepth", "value") ?? -1),
      closed: prop("#main #controls input#closedAccounts", "checked"), min: prop("#main #controls input#start", "min"), limit: prop("#main #controls input#end", "max"),
      root: selected("#sidebar select#root"), chart: !!this.doc.querySelector("#main section#view svg"),
      excluded: text("#main section#view span#excludedSubAccounts span"),
    };
  }
}

const ops = new Set(["load", "parse", "sum", "cmp", "convert", "add", "trim", "postings", "groups", "topgroups", "balances", "top", "shorten", "start", "input", "choose", "click", "read"]);
for await (const line of readline.createInterface({ input: process.stdin, crlfDelay: Infinity })) {
  let answer;
  try {
    const req = JSON.parse(line);
    process.env.TZ = req.tz || "UTC";
    const v = new Viewer(req);
    const results = [];
    for (const s of req.steps) {
      if (!ops.has(s.op)) throw new Error("no such step " + s.op);
      try {
        results.push({ ok: v[s.op](s) ?? null });
      } catch (e) {
        results.push({ error: String(e && e.message), stack: String(e && e.stack).slice(0, 1500) });
        break;
      }
    }
    answer = { results };
  } catch (e) {
    answer = { error: String(e && e.stack) };
  }
  process.stdout.write(JSON.stringify(answer) + "\n");
}
