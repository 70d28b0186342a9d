// build.mjs SRC OUT: bundles the modules of the viewer in SRC into one file, with stand-ins for d3.
import { createRequire } from "node:module";
import fs from "node:fs";
import path from "node:path";
const [src, out] = process.argv.slice(2);
const here = path.dirname(new URL(import.meta.url).pathname);
const require = createRequire("/opt/veriftools/node/node_modules/");
const esbuild = require("esbuild");
const files = fs.readdirSync(src).filter((f) => /\.ts$/.test(f) && !/\.d\.ts$/.test(f)).sort();
const entry = "exports.modules = () => [" + files.filter((f) => f != "ui.ts").map((f) => `require(${JSON.stringify(path.join(src, f))})`).join(", ") + "];\n" +
  `exports.start = () => require(${JSON.stringify(path.join(src, "ui.ts"))});\n`;
await esbuild.build({
  stdin: { contents: entry, resolveDir: src, sourcefile: "entry.js", loader: "js" },
  bundle: true, format: "cjs", platform: "neutral", target: "es2022", outfile: out, logLevel: "error", tsconfigRaw: "{}",
  plugins: [{ name: "stand-ins", setup(b) {
    b.onResolve({ filter: /^[^./]/ }, (a) => {
      if (path.isAbsolute(a.path)) return;
      const f = path.join(here, "d3", a.path + ".js");
      return { path: fs.existsSync(f) ? f : path.join(here, "d3", "other.js") };
    });
    b.onResolve({ filter: /\.css$/ }, () => ({ path: path.join(here, "d3", "other.js") }));
  } }],
});
