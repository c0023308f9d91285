// Stands in for the library compiled to WebAssembly: hands every call to the check.
export const get_watermarking_process = (...args) => globalThis.__libraryCall(...args);
export default async () => (globalThis.__libraryInit ? globalThis.__libraryInit() : undefined);
