// C28: screen geometry against exact or brute-force references.
import fc from "fast-check";
import { ViewportMath as M } from "repo/rendering/viewport-coordinate";
import { RenderedSelection } from "repo/rendering/rendered-selection";
import { must, part, type Check } from "./runner";

type P = { x: number; y: number };
type Rc = { x: number; y: number; width: number; height: number };

// Coordinates on a grid of quarters: every sum and square is exact.
const quarter = (n: number) => fc.oneof({ weight: 3, arbitrary: fc.integer({ min: -4 * 8, max: 4 * 8 }) }, { weight: 1, arbitrary: fc.integer({ min: -4 * n, max: 4 * n }) }).map((i) => i / 4);
const point: fc.Arbitrary<P> = fc.record({ x: quarter(3000), y: quarter(3000) });
const side = fc.oneof({ weight: 1, arbitrary: fc.constant(0) }, { weight: 5, arbitrary: quarter(2000).map(Math.abs) });
const rect: fc.Arbitrary<Rc> = fc.record({ x: quarter(3000), y: quarter(3000), width: side, height: side });

const near = (a: number, b: number) => Math.abs(a - b) <= 1e-9 * Math.max(1, Math.abs(a), Math.abs(b));

const clamp = (v: number, lo: number, hi: number) => (v < lo ? lo : v > hi ? hi : v);
const dist = (a: P, b: P) => Math.sqrt((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y));

/** Minimum over a densely sampled, then refined, segment. */
function segmentDistance(p: P, a: P, b: P) {
  const at = (t: number) => dist(p, { x: a.x + t * (b.x - a.x), y: a.y + t * (b.y - a.y) });
  let lo = 0;
  let hi = 1;
  // The distance is convex along the segment.
  for (let i = 0; i < 200; i++) {
    const m1 = lo + (hi - lo) / 3;
    const m2 = hi - (hi - lo) / 3;
    if (at(m1) <= at(m2)) hi = m2;
    else lo = m1;
  }
  return Math.min(at(lo), at(hi), at(0), at(1));
}

export const C28: Check = {
  id: "C28",
  rule:
    "Points, rectangles (a sixth of the sides are zero) and segments with coordinates on a grid of quarters between -3000 and 3000 (three quarters of them within 8 of the origin, so that points lie in, on and beside the figures). Non-trivial: distances whose figure has an extent; joins of two different rectangles; distinct by case.",
  assumptions: ["Segments shorter than the code's threshold (squared length under 1e-5) are not generated, except those of length zero."],
  parts: [
    part<{ p: P; r: Rc }>({
      name: "rectangle",
      quick: 120000,
      thorough: 3000000,
      arbitrary: fc.record({ p: point, r: rect }),
      check({ p, r }, o) {
        const nearest = { x: clamp(p.x, r.x, r.x + r.width), y: clamp(p.y, r.y, r.y + r.height) };
        const d = M.distanceToRectangle(p, r);
        must(near(d, dist(p, nearest)), () => `distance of ${JSON.stringify(p)} to ${JSON.stringify(r)} is ${d}, but the nearest point of it is ${JSON.stringify(nearest)}`);
        const inside = nearest.x === p.x && nearest.y === p.y;
        must((d === 0) === inside, () => `distance ${d} although the point is ${inside ? "in" : "out of"} the rectangle`);
        o.evals(2);
        o.nontrivialIf(r.width > 0 || r.height > 0);
        o.label(inside ? "inside" : nearest.x !== p.x && nearest.y !== p.y ? "beyond a corner" : "beside");
      },
    }),
    part<{ a: P; b: P }>({
      name: "points",
      quick: 60000,
      thorough: 1500000,
      arbitrary: fc.record({ a: point, b: fc.oneof({ weight: 8, arbitrary: point }, { weight: 0, arbitrary: point }) }),
      check({ a, b }, o) {
        const d = M.distanceToPoint(a, b);
        must(near(d, dist(a, b)), () => `distance is ${d}, should be ${dist(a, b)}`);
        must(near(M.distanceToPoint(b, a), d), () => "distance is not symmetric");
        must(near(M.distanceToPointSquared(a, b), d * d), () => "squared distance differs");
        must((d === 0) === (a.x === b.x && a.y === b.y), () => "zero exactly for equal points");
        o.evals(4);
        o.nontrivialIf(a.x !== b.x && a.y !== b.y);
      },
    }),
    part<{ p: P; a: P; b: P }>({
      name: "segment",
      quick: 120000,
      thorough: 3000000,
      arbitrary: fc
        .record({ p: point, a: point, b: point, how: fc.constantFrom(0, 0, 0, 1, 2, 3), t: fc.integer({ min: 0, max: 4 }) })
        .map(({ p, a, b, how, t }) => {
          // Tiny, but longer than the code's threshold.
          if (how === 3) {
            const s = 1 / 64;
            const q = (v: P) => ({ x: (v.x / 8) * s, y: (v.y / 8) * s });
            const d = q(b);
            return d.x * d.x + d.y * d.y < 1e-5 ? { p, a, b } : { p: { x: a.x + q(p).x, y: a.y + q(p).y }, a, b: { x: a.x + d.x, y: a.y + d.y } };
          }
          if (how === 1) return { p, a, b: a };
          // On the segment's line.
          if (how === 2) return { p: { x: a.x + (t / 4) * (b.x - a.x), y: a.y + (t / 4) * (b.y - a.y) }, a, b };
          return { p, a, b };
        }),
      check({ p, a, b }, o) {
        const want = segmentDistance(p, a, b);
        const d = M.distanceToSegment(p, { a, b });
        const close = (x: number, y: number) => Math.abs(x - y) <= 1e-6 * Math.max(1, x, y);
        must(close(d, want), () => `distance to the segment is ${d}, should be ${want}`);
        must(close(M.distanceToSegment(p, { a: b, b: a }), want), () => "depends on the segment's direction");
        must(Math.abs(M.distanceToSegmentSquared(p, { a, b }) - want * want) <= 1e-6 * Math.max(1, want * want), () => "squared distance differs");
        o.evals(3);
        o.nontrivialIf(a.x !== b.x || a.y !== b.y);
        o.labelIf(a.x === b.x && a.y === b.y, "no extent");
        o.labelIf(d < 1e-9, "on it");
      },
    }),
    part<{ rs: Rc[]; p: P; baseline: number }>({
      name: "join",
      quick: 90000,
      thorough: 2100000,
      arbitrary: fc.record({ rs: fc.array(rect, { minLength: 2, maxLength: 5 }), p: point, baseline: quarter(100) }),
      check({ rs, p, baseline }, o) {
        const want = {
          x: Math.min(...rs.map((r) => r.x)),
          y: Math.min(...rs.map((r) => r.y)),
          right: Math.max(...rs.map((r) => r.x + r.width)),
          bottom: Math.max(...rs.map((r) => r.y + r.height)),
        };
        const same = (r: Rc, how: string) =>
          must(
            r.x === want.x && r.y === want.y && r.x + r.width === want.right && r.y + r.height === want.bottom,
            () => `${how}: the join is ${JSON.stringify(r)}, should be ${JSON.stringify(want)}`
          );
        same(rs.reduce((a, b) => M.joinRectangles(a, b)), "from the left");
        same(rs.reduceRight((a, b) => M.joinRectangles(a, b)), "from the right");
        const s = rs.map((r) => new RenderedSelection(r, baseline)).reduce((a, b) => a.join(b));
        same(s.rect, "of selections");
        must(s.baseline === baseline, () => "the joined selection has another baseline");
        must(s.isCollapsed === (want.right === want.x), () => "the joined selection is wrongly (not) collapsed");
        const all = M.joinRectangles(rs[0], rs[1]);
        must(M.distanceToRectangle(p, all) <= Math.min(M.distanceToRectangle(p, rs[0]), M.distanceToRectangle(p, rs[1])) + 1e-9, () => "farther from the join than from a part");
        o.evals(6);
        o.nontrivialIf(JSON.stringify(rs[0]) !== JSON.stringify(rs[1]));
      },
    }),
  ],
};
