// Synchronous requests to the Rust server, over a pair of named pipes.
import { spawn, spawnSync, type ChildProcess } from "node:child_process";
import * as fs from "node:fs";
import * as os from "node:os";
import * as path from "node:path";

type Server = { child: ChildProcess; to: number; from: number; dir: string };
let server: Server | null = null;

function start(): Server {
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "tsserver-"));
  const a = path.join(dir, "in");
  const b = path.join(dir, "out");
  spawnSync("mkfifo", [a, b]);
  const exe = process.env.TSSERVER!;
  const child = spawn("/bin/sh", ["-c", 'exec "$0" <"$1" >"$2"', exe, a, b], { stdio: "ignore" });
  child.unref();
  const to = fs.openSync(a, "w");
  const from = fs.openSync(b, "r");
  fs.rmSync(dir, { recursive: true });
  return { child, to, from, dir };
}

function stop(s: Server) {
  try { fs.closeSync(s.to); } catch {}
  try { fs.closeSync(s.from); } catch {}
}
process.on("exit", () => server && stop(server));

export class ServerDied extends Error {}
export class Refused extends Error {}

const chunk = Buffer.alloc(1 << 16);
export function request(r: object): any {
  server ??= start();
  const s = server;
  try {
    const data = Buffer.from(JSON.stringify(r) + "\n");
    for (let i = 0; i < data.length; ) i += fs.writeSync(s.to, data, i);
    const parts: Buffer[] = [];
    for (;;) {
      const n = fs.readSync(s.from, chunk, 0, chunk.length, null);
      if (n === 0) throw new Error("end of file");
      parts.push(Buffer.from(chunk.subarray(0, n)));
      if (chunk[n - 1] === 10) break;
    }
    const answer = JSON.parse(Buffer.concat(parts).toString());
    if ("panic" in answer) throw new Error(answer.panic);
    if ("err" in answer) throw new Refused(answer.err);
    return answer.ok;
  } catch (e: any) {
    if (e.code || e.message === "end of file") {
      stop(s);
      server = null;
      throw new ServerDied("the editor's process died (stack overflow, abort)");
    }
    throw e;
  }
}
