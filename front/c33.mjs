// C33: the page hands the bytes of the chosen file to the library and its result to the canvas.
import path from 'node:path';
import { pathToFileURL } from 'node:url';
import { esbuild, equal, equalBytes, fc, finish, here, Listeners, run, scratch } from './harness.mjs';

const PROPERTY = 'C33';

// ------------------------------------------------------------------ the code under test
const bundle = path.join(scratch, 'utils.mjs');
try {
  esbuild.buildSync({
    entryPoints: ['/repo/src/Content/utils.ts'],
    bundle: true,
    format: 'esm',
    platform: 'neutral',
    outfile: bundle,
    alias: { 'sia-watermarking-lib': path.join(here, 'lib-stub.js') },
    logLevel: 'silent',
  });
} catch (e) {
  console.log(`ERROR property=${PROPERTY} the page's code cannot be built: ${e}`);
  finish(2);
}

// ------------------------------------------------------------------ the browser's side
const encode = bytes => Buffer.from(bytes).toString('base64');
const later = (ticks, f) => (ticks === 0 ? queueMicrotask(f) : setTimeout(f, ticks - 1));

globalThis.FileReader = class extends Listeners {
  result = null;
  error = null;
  readAsDataURL(blob) {
    later(blob.delay, () => {
      if (blob.broken) {
        this.error = blob.broken;
        this.emit('error');
      } else {
        const type = blob.type || 'application/octet-stream';
        this.result = `data:${type};base64,${encode(blob.content)}`;
        this.emit('load');
      }
      this.emit('loadend');
    });
  }
  readAsArrayBuffer(blob) {
    later(blob.delay, () => {
      if (blob.broken) {
        this.error = blob.broken;
        this.emit('error');
      } else {
        this.result = Uint8Array.from(blob.content).buffer;
        this.emit('load');
      }
      this.emit('loadend');
    });
  }
};

const served = new Map();
globalThis.XMLHttpRequest = class extends Listeners {
  status = 200;
  readyState = 0;
  responseType = '';
  open(method, url) {
    this.method = method;
    this.url = url;
  }
  setRequestHeader() {}
  send() {
    const blob = served.get(this.url);
    later(blob.delay, () => {
      this.readyState = 4;
      this.response = this.responseType === 'blob' ? blob : undefined;
      this.emit('readystatechange');
      this.emit('load');
      this.emit('loadend');
    });
  }
};

const utils = await import(pathToFileURL(bundle).href);

// ------------------------------------------------------------------ generators
const bytes = fc.oneof(
  { weight: 4, arbitrary: fc.uint8Array({ maxLength: 80 }) },
  { weight: 1, arbitrary: fc.uint8Array({ minLength: 200, maxLength: 3000 }) },
  { weight: 1, arbitrary: fc.constantFrom([0x89, 0x50, 0x4e, 0x47], [0xff, 0xd8, 0xff, 0xe0], [0, 0, 0], [255, 255, 255, 255]).map(a => Uint8Array.from(a)) },
  {
    // bytes whose encoded text contains words which mean something elsewhere in a data URL, at any offset
    weight: 1,
    arbitrary: fc
      .tuple(fc.uint8Array({ maxLength: 9 }), fc.constantFrom('base64', 'data', 'datadata', 'image/png', 'base64base64', 'image', 'undefined', 'null', '++++////', 'AAAABBBB'), fc.nat({ max: 3 }), fc.uint8Array({ maxLength: 9 }))
      .map(([before, word, shift, after]) => Uint8Array.from([...before.slice(0, before.length - (before.length % 3)), ...Buffer.from('AAAA'.slice(0, shift) + word + 'AAAA', 'base64'), ...after])),
  },
).map(a => Array.from(a));
const letters = 'abcdefghijklmnopqrstuvwxyz0123456789';
const word = fc.array(fc.constantFrom(...letters), { minLength: 1, maxLength: 8 }).map(a => a.join(''));
const type = fc.oneof(
  { weight: 3, arbitrary: fc.constantFrom('image/png', 'image/jpeg', 'image/gif', 'image/bmp', 'image/tiff') },
  { weight: 2, arbitrary: fc.constantFrom('image/x-ms-bmp', 'image/svg+xml', 'image/vnd.microsoft.icon', 'application/octet-stream', 'image/x-portable-pixmap', '') },
  { weight: 1, arbitrary: fc.tuple(word, fc.constantFrom('', '-', '.', '+', '_'), word).map(([a, b, c]) => `image/${a}${b}${c}`) },
  { weight: 1, arbitrary: word.map(w => `image/png;charset=${w}`) },
);
const delay = fc.integer({ min: 0, max: 3 });
const blob = fc.record({ content: bytes, type, delay });
const size = fc.integer({ min: 0, max: 0xffffffff });
const model = fc.record({ width: size, height: size, data: bytes });
const number = fc.double({ noNaN: true, min: 0.001, max: 1e6 });

const withTime = (promise, what) =>
  new Promise((resolve, reject) => {
    const timer = setTimeout(() => reject(new Error(`${what} never settles`)), 8000);
    promise.then(resolve, reject).finally(() => clearTimeout(timer));
  });

// A library which keeps its memory: what it hands out changes with the next call.
const library = ({ format, source, watermarked }) => {
  const memory = { source: Uint8Array.from(source.data), watermarked: Uint8Array.from(watermarked.data) };
  const wasmModel = (m, data) => ({ get_width: () => m.width, get_height: () => m.height, get_data: () => data });
  const calls = [];
  globalThis.__libraryCall = (...args) => {
    calls.push(args);
    return {
      get_source_format: () => format,
      get_source: () => wasmModel(source, memory.source),
      get_watermarked: () => wasmModel(watermarked, memory.watermarked),
    };
  };
  return { calls, overwrite: () => Object.values(memory).forEach(m => m.fill(0xaa)) };
};

const checkProcess = (found, { format, source, watermarked }) => {
  equal('the format', found.sourceFormat, format);
  for (const [name, expected] of [['source', source], ['watermarked', watermarked]]) {
    equal(`the width of ${name}`, found[name].width, expected.width);
    equal(`the height of ${name}`, found[name].height, expected.height);
    equalBytes(name, found[name].data, expected.data);
  }
};

// ------------------------------------------------------------------ the sub-checks
const answer = fc.record({ format: word, source: model, watermarked: model });
const subs = {
  'data-url': {
    quick: 20000,
    thorough: 400000,
    arbitrary: fc.tuple(bytes, type, fc.boolean()),
    trivial: ([content]) => content.length === 0,
    check: async ([content, mime, bare]) => {
      const text = (bare ? '' : `data:${mime};base64,`) + encode(content);
      equalBytes(`the contents of ${text.slice(0, 60)}`, utils.base64ToUInt8Array(text), content);
    },
  },
  'chosen-files': {
    quick: 1500,
    thorough: 30000,
    arbitrary: fc.array(blob, { minLength: 1, maxLength: 5 }),
    trivial: blobs => blobs.every(b => b.content.length === 0),
    check: async blobs => {
      const read = blobs.map(b => utils.fileToBase64(b));
      const texts = await withTime(Promise.all(read), 'reading a file');
      blobs.forEach((b, i) => equalBytes(`file ${i} of type ${b.type}`, utils.base64ToUInt8Array(texts[i]), b.content));
    },
  },
  'broken-files': {
    quick: 400,
    thorough: 8000,
    arbitrary: fc.tuple(blob, word),
    trivial: () => false,
    check: async ([b, reason]) => {
      let outcome;
      const broken = { ...b, broken: new Error(reason) };
      try {
        outcome = await withTime(utils.fileToBase64(broken), 'reading a broken file');
      } catch (error) {
        if (error instanceof Error && /never settles/.test(error.message)) throw error;
        return;
      }
      throw new Error(`reading a broken file results in ${outcome}`);
    },
  },
  'fetched-pictures': {
    quick: 800,
    thorough: 15000,
    arbitrary: fc.array(blob, { minLength: 1, maxLength: 4 }),
    trivial: blobs => blobs.every(b => b.content.length === 0),
    check: async blobs => {
      const read = blobs.map((b, i) => {
        served.set(`/picture/${i}`, b);
        return utils.toDataURL(`/picture/${i}`);
      });
      const texts = await withTime(Promise.all(read), 'fetching a picture');
      blobs.forEach((b, i) => equalBytes(`picture ${i} of type ${b.type}`, utils.base64ToUInt8Array(texts[i]), b.content));
    },
  },
  'whole-way': {
    quick: 6000,
    thorough: 120000,
    arbitrary: fc.tuple(bytes, type, fc.boolean(), number, number, answer),
    trivial: ([content]) => content.length === 0,
    check: async ([content, mime, bare, depth, step, reply]) => {
      const { calls, overwrite } = library(reply);
      const found = utils.sourceBase64ToWatermarkingProcess((bare ? '' : `data:${mime};base64,`) + encode(content), depth, step);
      equal('the number of calls', calls.length, 1);
      equalBytes('the bytes handed over', calls[0][0], content);
      equal('the depth', calls[0][1], depth);
      equal('the step', calls[0][2], step);
      checkProcess(found, reply);
      // what the page keeps must not change when the library's memory does
      overwrite();
      checkProcess(found, reply);
    },
  },
};

// what was renamed or moved is left to C34, which looks at the page as a whole
const needs = {
  'data-url': ['base64ToUInt8Array'],
  'chosen-files': ['fileToBase64', 'base64ToUInt8Array'],
  'broken-files': ['fileToBase64'],
  'fetched-pictures': ['toDataURL', 'base64ToUInt8Array'],
  'whole-way': ['sourceBase64ToWatermarkingProcess'],
};
for (const [name, functions] of Object.entries(needs)) {
  if (functions.some(f => typeof utils[f] !== 'function')) {
    console.log(`note: ${name} is left out, as src/Content/utils.ts has no ${functions.filter(f => typeof utils[f] !== 'function').join(', ')}`);
    delete subs[name];
  }
}

await run(
  PROPERTY,
  'files of 0..3000 bytes of usual, unusual and missing media types, read one by one and several at once with generated delays, broken files, and the whole way to a recorded library and back; non-trivial: a file which is not empty, or broken',
  ["the browser's file reader and requests, and the library, are stand-ins which record what they are given"],
  subs,
);
