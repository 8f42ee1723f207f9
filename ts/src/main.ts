import { install } from "./dom";
install();
if (!process.env.TS_VERBOSE) {
  const log = console.log;
  const quiet = process.argv[2] === "shard" || process.argv[2] === "replay" || process.argv[2] === "run";
  if (quiet) {
    const own = /^(C\d\d: |\[|case: |VIOLATION |KNOWN-FINDING|held)/;
    console.log = (...a: unknown[]) => (a.length === 1 && typeof a[0] === "string" && own.test(a[0]) ? log(a[0]) : undefined);
    console.warn = () => {};
  }
}
const { main } = await import("./runner");
const { C24 } = await import("./c24");
const { C25 } = await import("./c25");
const { C26 } = await import("./c26");
const { C28 } = await import("./c28");
const { C30 } = await import("./c30");
const { C33 } = await import("./c33");

await main([C24, C25, C26, C28, C30, C33]);
