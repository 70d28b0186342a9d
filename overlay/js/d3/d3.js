// Stand-in for the whole of d3.
"use strict";
module.exports = Object.assign({}, require("./d3-time"), require("./d3-scale"), require("./d3-scale-chromatic"), require("./d3-axis"),
  require("./d3-array"), require("./d3-hierarchy"), require("./d3-selection"));
Object.setPrototypeOf(module.exports, require("./lacks").lacks("d3"));
