import { createRequire } from "node:module";
const require = createRequire("/opt/veriftools/node/node_modules/x.js");
const ts = require("typescript") as typeof import("typescript");
export default ts;
