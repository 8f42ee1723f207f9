/** Any settings panel: whatever is asked of it, it answers with itself. */
const panel: any = new Proxy(function () {}, { get: (_, k) => (k === "then" ? undefined : panel), apply: () => panel, construct: () => panel });
export const GUI = panel;
export default panel;
