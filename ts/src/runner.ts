// Runs a check's parts over generated cases, in several processes, and writes its evidence.
import fc from "fast-check";
import { spawn } from "node:child_process";
import { createHash } from "node:crypto";
import * as fs from "node:fs";
import * as os from "node:os";
import * as path from "node:path";

export class Obs {
  isNontrivial = false;
  labels = new Set<string>();
  evaluations = 0;
  nontrivialIf(c: boolean) { if (c) this.isNontrivial = true; }
  label(l: string) { this.labels.add(l); }
  labelIf(c: boolean, l: string) { if (c) this.labels.add(l); }
  evals(n: number) { this.evaluations += n; }
}
export type Part<C = any> = {
  name: string;
  quick: number;
  thorough: number;
  arbitrary: fc.Arbitrary<C>;
  /** Throws when the property does not hold for the case. */
  check: (c: C, o: Obs) => void | Promise<void>;
};
export type Check = { id: string; rule: string; assumptions: string[]; parts: Part[] };
export const part = <C>(p: Part<C>): Part => p as Part;

export function fail(message: string): never {
  throw new Error(message);
}
export function must(c: unknown, message: () => string): asserts c {
  if (!c) fail(message());
}

const SHARDS = 8;
const CASE_LIMIT_MS = 60_000;
const SHRINK_MS = 30_000;
const verif = () => process.env.VERIF_DIR ?? "/verif";

type ShardResult = {
  cases: number;
  evaluations: number;
  nontrivial: string[];
  labels: Record<string, number>;
  samples: any[];
  failure: { message: string; case: any } | null;
};
const messageOf = (e: any) => (e instanceof Error ? e.message || e.stack?.split("\n").slice(0, 4).join(" | ") || "error" : String(e?.[0]?.message ?? e));

async function evaluate(p: Part, c: any, o: Obs): Promise<string | null> {
  try {
    await p.check(structuredClone(c), o);
    return null;
  } catch (e) {
    return messageOf(e) || "failed";
  }
}

async function runShard(check: Check, name: string, seed: number, cases: number, out: string) {
  const p = check.parts.find((p) => p.name === name)!;
  const r: ShardResult = { cases: 0, evaluations: 0, nontrivial: [], labels: {}, samples: [], failure: null };
  const seen = new Set<string>();
  const seenLabels = new Set<string>();
  let deadline = 0;
  const details = await fc.check(
    fc.asyncProperty(p.arbitrary, async (c) => {
      if (deadline && Date.now() > deadline) return true;
      fs.writeFileSync(out + ".case", JSON.stringify(c));
      const o = new Obs();
      const message = await evaluate(p, c, o);
      if (message !== null) {
        deadline ||= Date.now() + SHRINK_MS;
        throw new Error(message);
      }
      if (deadline) return true;
      r.cases++;
      r.evaluations += Math.max(1, o.evaluations);
      for (const l of o.labels) r.labels[l] = (r.labels[l] ?? 0) + 1;
      if (o.isNontrivial) {
        const text = JSON.stringify(c);
        seen.add(createHash("md5").update(name + text).digest("hex").slice(0, 16));
        const fresh = [...o.labels].some((l) => !seenLabels.has(l));
        if (text.length < 1500 && r.samples.length < 2 && (fresh || r.samples.length === 0)) {
          r.samples.push({ part: name, labels: [...o.labels], case: c });
          o.labels.forEach((l) => seenLabels.add(l));
        }
      }
      return true;
    }),
    { seed, numRuns: cases, maxSkipsPerRun: 100 }
  );
  if (details.failed) {
    const c = details.counterexample?.[0];
    r.failure = { case: c, message: (await evaluate(p, c, new Obs())) ?? "(does not fail when evaluated again)" };
  }
  r.nontrivial = [...seen];
  fs.writeFileSync(out, JSON.stringify(r));
}

function shards(check: Check, p: Part, seed: number, cases: number): Promise<ShardResult[]> {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "tsshard-"));
  const one = (shard: number) =>
    new Promise<ShardResult>((resolve) => {
      const n = Math.floor(cases / SHARDS) + (shard < cases % SHARDS ? 1 : 0);
      const out = path.join(dir, String(shard));
      if (n === 0) return resolve({ cases: 0, evaluations: 0, nontrivial: [], labels: {}, samples: [], failure: null });
      const s = createHash("md5").update(`${seed}/${p.name}/${shard}`).digest().readInt32LE(0);
      // Every other process runs a production build.
      const bundle = shard % 2 ? process.env.TS_PROD! : process.env.TS_DEV!;
      const child = spawn(process.execPath, ["--stack-size=4000", bundle, "shard", check.id, p.name, String(s), String(n), out], {
        stdio: ["ignore", "ignore", "pipe"],
      });
      let stderr = "";
      child.stderr!.on("data", (d) => (stderr += d));
      const last = () => {
        try { return JSON.parse(fs.readFileSync(out + ".case", "utf8")); } catch { return null; }
      };
      let stuck = false;
      const watch = setInterval(() => {
        try {
          if (Date.now() - fs.statSync(out + ".case").mtimeMs > CASE_LIMIT_MS) {
            stuck = true;
            child.kill("SIGKILL");
          }
        } catch {}
      }, 1000);
      child.on("close", (code) => {
        clearInterval(watch);
        if (code === 0 && fs.existsSync(out)) return resolve(JSON.parse(fs.readFileSync(out, "utf8")));
        const c = last();
        if (c === null) {
          console.error("harness error: " + stderr);
          process.exit(2);
        }
        const message = stuck ? `does not terminate (no result after ${CASE_LIMIT_MS / 1000} s)` : "the process died: " + stderr.slice(0, 300);
        resolve({ cases: 0, evaluations: 0, nontrivial: [], labels: {}, samples: [], failure: { case: c, message } });
      });
    });
  return Promise.all(Array.from({ length: SHARDS }, (_, i) => one(i))).finally(() => fs.rmSync(dir, { recursive: true, force: true }));
}

function violation(id: string, part: string, message: string, c: any) {
  const dir = path.join(verif(), "out");
  fs.mkdirSync(dir, { recursive: true });
  const file = path.join(dir, `replay-${id}-${part}.json`);
  fs.writeFileSync(file, JSON.stringify({ property: id, part, case: c, message }, null, 1) + "\n");
  return file;
}

async function run(check: Check, tier: string): Promise<number> {
  const started = Date.now();
  const seed = parseInt(process.env.VERIF_SEED ?? "1") || 1;
  const scale = parseFloat(process.env.VERIF_SCALE ?? "1") || 1;
  const failures: { part: string; message: string; case: any }[] = [];
  const partInfo: any = {};
  let evaluations = 0;
  let oracle = 0;
  let nontrivial = 0;
  let regressions = 0;
  const samples: any[] = [];

  const dir = path.join(verif(), "regress", check.id);
  for (const f of fs.existsSync(dir) ? fs.readdirSync(dir).sort() : []) {
    const v = JSON.parse(fs.readFileSync(path.join(dir, f), "utf8"));
    const p = check.parts.find((p) => p.name === v.part);
    if (!p) throw new Error("unknown part in " + f);
    regressions++;
    const message = await evaluate(p, v.case, new Obs());
    if (message !== null) failures.push({ part: p.name, message, case: v.case });
  }
  const known = JSON.parse(fs.readFileSync(path.join(verif(), "known_findings.json"), "utf8")).known;
  for (const k of known.filter((k: any) => k.property === check.id)) {
    const p = check.parts.find((p) => p.name === k.part);
    if (p && (await evaluate(p, k.case, new Obs())) !== null) console.log(`KNOWN-FINDING: property=${check.id} ${k.what}`);
  }
  for (const p of check.parts) {
    const t = Date.now();
    const n = Math.ceil((tier === "thorough" ? p.thorough : p.quick) * scale);
    const rs = await shards(check, p, seed, n);
    const distinct = new Set(rs.flatMap((r) => r.nontrivial)).size;
    const labels: Record<string, number> = {};
    for (const r of rs) for (const [l, k] of Object.entries(r.labels)) labels[l] = (labels[l] ?? 0) + k;
    const cases = rs.reduce((a, r) => a + r.cases, 0);
    const evals = rs.reduce((a, r) => a + r.evaluations, 0);
    evaluations += cases;
    oracle += evals;
    nontrivial += distinct;
    samples.push(...rs.flatMap((r) => r.samples).slice(0, 3));
    partInfo[p.name] = { cases, distinct_nontrivial: distinct, oracle_evaluations: evals, labels, wall_s: (Date.now() - t) / 1000 };
    const f = rs.filter((r) => r.failure).sort((a, b) => JSON.stringify(a.failure!.case).length - JSON.stringify(b.failure!.case).length)[0];
    if (f) failures.push({ part: p.name, ...f.failure! });
  }
  const evidence = {
    property: check.id,
    tier,
    seed,
    level: "exploration",
    coverage: {
      evaluations: evaluations + regressions,
      distinct_nontrivial: nontrivial,
      rule: check.rule,
      samples,
      oracle_evaluations: oracle,
      regressions_replayed: regressions,
      parts: partInfo,
    },
    assumptions: check.assumptions,
    wall_s: (Date.now() - started) / 1000,
    violations: failures.length,
  };
  fs.mkdirSync(path.join(verif(), "evidence"), { recursive: true });
  fs.writeFileSync(path.join(verif(), "evidence", `${check.id}.json`), JSON.stringify(evidence, null, 2) + "\n");
  console.log(`${check.id}: ${evaluations + regressions} cases, ${nontrivial} distinct non-trivial, ${oracle} oracle evaluations, ${evidence.wall_s}s`);
  for (const f of failures) {
    const file = violation(check.id, f.part, f.message, f.case);
    console.log(`[${f.part}] ${f.message}`);
    console.log(`case: ${JSON.stringify(f.case)}`);
    console.log(`VIOLATION property=${check.id} replay=${file}`);
  }
  return failures.length ? 1 : 0;
}

export async function main(checks: Check[]) {
  const [cmd, ...a] = process.argv.slice(2);
  if (cmd === "shard") {
    await runShard(checks.find((c) => c.id === a[0])!, a[1], parseInt(a[2]), parseInt(a[3]), a[4]);
    process.exit(0);
  }
  if (cmd === "replay") {
    const v = JSON.parse(fs.readFileSync(a[0], "utf8"));
    const p = checks.find((c) => c.id === v.property)!.parts.find((p) => p.name === v.part)!;
    const message = await evaluate(p, v.case, new Obs());
    if (message === null) {
      console.log("held");
      process.exit(0);
    }
    console.log(`[${v.part}] ${message}`);
    console.log(`VIOLATION property=${v.property} replay=${path.resolve(a[0])}`);
    process.exit(1);
  }
  const c = checks.find((c) => c.id === a[0]);
  if (!c) {
    console.error("no check " + a[0]);
    process.exit(2);
  }
  process.exit(await run(c, a[1] ?? process.env.VERIF_TIER ?? "quick"));
}
