// build.cjs <out dir>: bundles the checks with /repo/src, once as a development and once as a production build.
const modules = "/opt/veriftools/node/node_modules";
const esbuild = require(modules + "/esbuild");
const path = require("node:path");
const here = __dirname;
const repo = process.env.VERIF_REPO ?? "/repo";
const plugin = {
  name: "editor",
  setup(b) {
    b.onResolve({ filter: /aftermath-core\/pkg$/ }, () => ({ path: path.join(here, "stub/pkg.ts") }));
    b.onResolve({ filter: /^lil-gui$/ }, () => ({ path: path.join(here, "stub/lil-gui.ts") }));
    b.onResolve({ filter: /^repo\// }, (a) => ({ path: path.join(repo, "src", a.path.slice(5) + ".ts") }));
    b.onResolve({ filter: /\.css(\?inline)?$/ }, (a) => ({ path: a.path, namespace: "css" }));
    b.onLoad({ filter: /.*/, namespace: "css" }, () => ({ contents: 'export default "";', loader: "js" }));
  },
};
for (const [name, dev] of [["dev", true], ["prod", false]]) {
  esbuild.build({
    // The page's own script shares everything with the checks and can be loaded again and again.
    entryPoints: { main: path.join(here, "src/main.ts"), page: path.join(repo, "src/main.ts") },
    outdir: path.join(process.argv[2], name),
    outExtension: { ".js": ".mjs" },
    splitting: true,
    bundle: true,
    platform: "node",
    format: "esm",
    target: "es2022",
    nodePaths: [modules],
    banner: { js: 'import { createRequire as __cr } from "node:module"; const require = __cr(import.meta.url);' },
    define: { "import.meta.env": JSON.stringify({ DEV: dev, PROD: !dev }) },
    tsconfigRaw: { compilerOptions: { target: "ES2022", useDefineForClassFields: true } },
    plugins: [plugin],
    logLevel: "error",
  }).catch(() => process.exit(1));
}
