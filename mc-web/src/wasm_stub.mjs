// Stands in for the generated bindings: records how it is used.
globalThis.__wasm ??= { init: 0, stft: [] };
export const Colormap = { Fire: 0, Legacy: 1, Gray: 2, Viridis: 3, Plasma: 4, Inferno: 5, Rainbow: 6 };
export function color_from_magnitude_u8(mag, max, floor, map) {
  globalThis.__wasm.colours?.push([mag, max, floor, map]);
  return globalThis.__colour(mag, max, floor, map);
}
export function stft_magnitudes(samples, win, hop) {
  globalThis.__wasm.stft.push([Array.from(samples), win, hop]);
  const width = Math.ceil(samples.length / hop);
  const height = win / 2;
  const mags = new Float32Array(width * height);
  let max = 1e-12;
  for (let i = 0; i < mags.length; i++) {
    mags[i] = Math.fround(Math.abs(samples[i % samples.length]) + (i % 977) / 977 + win / 8192 + hop / 32768);
    max = Math.max(max, mags[i]);
  }
  return { mags, width, height, max_mag: max };
}
export default async function init() {
  globalThis.__wasm.init++;
}
