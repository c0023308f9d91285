// C34: the page shows the picture chosen last and its marked version.
import fs from 'node:fs';
import path from 'node:path';
import { pathToFileURL } from 'node:url';
import { esbuild, equal, equalBytes, fc, finish, here, Listeners, run, scratch } from './harness.mjs';

const PROPERTY = 'C34';

// ------------------------------------------------------------------ the code under test
const source = '/repo/src';
const bundle = path.join(scratch, 'page.mjs');
fs.writeFileSync(path.join(scratch, 'entry.js'), `export { default as App } from '${source}/App';\nexport { Root, createElement } from 'react';\n`);
const standIns = { 'sia-watermarking-lib': 'lib-stub.js', react: 'react-stub.mjs', 'react/jsx-runtime': 'react-stub.mjs', 'react/jsx-dev-runtime': 'react-stub.mjs' };
try {
  await esbuild.build({
    entryPoints: [path.join(scratch, 'entry.js')],
    bundle: true,
    format: 'esm',
    platform: 'neutral',
    outfile: bundle,
    publicPath: '/',
    loader: { '.jpg': 'file', '.jpeg': 'file', '.png': 'file', '.svg': 'file', '.css': 'empty' },
    plugins: [
      {
        name: 'stand-ins',
        setup: build => build.onResolve({ filter: /^(react|sia-watermarking-lib)(\/|$)/ }, ({ path: name }) => (standIns[name] ? { path: path.join(here, standIns[name]) } : undefined)),
      },
    ],
    logLevel: 'silent',
  });
} catch (e) {
  console.log(`ERROR property=${PROPERTY} the page's code cannot be built: ${e}`);
  finish(2);
}
process.on('unhandledRejection', () => undefined); // the browser reports those on its console
const { App, Root, createElement } = await import(pathToFileURL(bundle).href);

// ------------------------------------------------------------------ the browser's side
// Everything that takes time waits here until the check lets it go on.
let waiting = [];
const later = f => waiting.push(f);

globalThis.FileReader = class extends Listeners {
  result = null;
  error = null;
  start(blob, result) {
    if (!blob || !blob.content) throw new TypeError("parameter 1 is not of type 'Blob'");
    later(() => {
      if (this.aborted) return;
      if (blob.broken) {
        this.error = new Error('the file cannot be read');
        this.emit('error');
      } else {
        this.result = result();
        this.emit('load');
      }
      this.emit('loadend');
    });
  }
  abort() {
    this.aborted = true;
    this.emit('abort');
    this.emit('loadend');
  }
  readAsDataURL(blob) {
    this.start(blob, () => `data:${blob.type};base64,${Buffer.from(blob.content).toString('base64')}`);
  }
  readAsArrayBuffer(blob) {
    this.start(blob, () => Uint8Array.from(blob.content).buffer);
  }
};
const fileOf = ({ content, type, broken, name = 'picture', lastModified = 0 }) => ({
  content,
  type,
  broken,
  name,
  lastModified,
  size: content.length,
  arrayBuffer() {
    return new Promise((resolve, reject) => later(() => (broken ? reject(new Error('the file cannot be read')) : resolve(Uint8Array.from(content).buffer))));
  },
});
let served;
globalThis.XMLHttpRequest = class extends Listeners {
  status = 200;
  readyState = 0;
  responseType = '';
  open(method, url) {
    this.url = url;
  }
  setRequestHeader() {}
  abort() {
    this.aborted = true;
  }
  send() {
    later(() => {
      if (this.aborted) return;
      this.readyState = 4;
      this.response = this.responseType === 'arraybuffer' ? Uint8Array.from(served.content).buffer : fileOf(served);
      this.emit('readystatechange');
      this.emit('load');
      this.emit('loadend');
    });
  }
};
globalThis.fetch = () =>
  new Promise(resolve =>
    later(() => resolve({ ok: true, status: 200, blob: async () => fileOf(served), arrayBuffer: async () => Uint8Array.from(served.content).buffer })),
  );
globalThis.ImageData = class {
  constructor(a, b, c) {
    if (typeof a === 'number') [this.width, this.height, this.data] = [a, b, new Uint8ClampedArray(4 * a * b)];
    else {
      [this.data, this.width] = [a, b];
      this.height = c === undefined ? a.length / 4 / b : c;
      if (a.length !== 4 * this.width * this.height) throw new Error('InvalidStateError: the lengths do not fit');
    }
  }
};

const host = {
  create: type => {
    if (type !== 'canvas') return { tagName: type.toUpperCase(), value: '', files: [], style: {} };
    const node = { tagName: 'CANVAS', style: {}, pixels: new Uint8ClampedArray(4 * 300 * 150) };
    const side = { width: 300, height: 150 };
    const clear = () => (node.pixels = new Uint8ClampedArray(4 * side.width * side.height));
    for (const name of ['width', 'height']) {
      Object.defineProperty(node, name, {
        get: () => side[name],
        set: value => {
          side[name] = Number(value);
          clear();
        },
      });
    }
    const context = {
      canvas: node,
      createImageData: (w, h) => (typeof w === 'object' ? new ImageData(w.width, w.height) : new ImageData(w, h)),
      putImageData: (image, x, y) => {
        for (let row = 0; row < image.height; row++) {
          for (let col = 0; col < image.width; col++) {
            const [r, c] = [row + y, col + x];
            if (r < 0 || c < 0 || r >= side.height || c >= side.width) continue;
            for (let k = 0; k < 4; k++) node.pixels[4 * (r * side.width + c) + k] = image.data[4 * (row * image.width + col) + k];
          }
        }
      },
      getImageData: () => ({ width: side.width, height: side.height, data: node.pixels.slice() }),
      clearRect: (x, y, w, h) => {
        for (let r = Math.max(y, 0); r < Math.min(y + h, side.height); r++) {
          for (let c = Math.max(x, 0); c < Math.min(x + w, side.width); c++) node.pixels.fill(0, 4 * (r * side.width + c), 4 * (r * side.width + c) + 4);
        }
      },
      save: () => undefined,
      restore: () => undefined,
    };
    node.getContext = kind => (kind === '2d' ? context : null);
    return node;
  },
  update: (node, before, after) => {
    // only attributes which changed are set
    for (const name of ['width', 'height']) {
      if (name in node && after[name] !== undefined && before[name] !== after[name]) node[name] = after[name];
    }
  },
};

// ------------------------------------------------------------------ generators
const letters = 'abcdefghijklmnopqrstuvwxyz0123456789';
const word = fc.array(fc.constantFrom(...letters), { minLength: 1, maxLength: 6 }).map(a => a.join(''));
const answer = fc
  .tuple(fc.integer({ min: 1, max: 5 }), fc.integer({ min: 1, max: 5 }), fc.integer(), word, fc.boolean())
  .map(([width, height, paint, format, alike]) => ({ width, height, paint, format, alike }));
const picture = fc.record({
  content: fc.array(fc.integer({ min: 0, max: 255 }), { maxLength: 12 }),
  type: fc.constantFrom('image/png', 'image/jpeg', 'image/x-ms-bmp', 'application/octet-stream'),
  name: fc.constantFrom('picture.png', 'picture', 'PICTURE.JPG', 'a.b.c.gif', '.png', 'photo of a cat.webp', 'peppers.jpg', 'notes.txt', 'Bild ä.bmp'),
  lastModified: fc.constantFrom(0, 1, 1700000000000),
  outcome: fc.oneof({ weight: 5, arbitrary: fc.constant('good') }, { weight: 1, arbitrary: fc.constantFrom('broken', 'refused') }),
  answer,
  // a file which looks like the one before it: another version of it, or one of the same name in another folder
  again: fc.oneof({ weight: 4, arbitrary: fc.constant(0) }, { weight: 2, arbitrary: fc.constant(1) }, { weight: 1, arbitrary: fc.constant(2) }),
});
const op = fc.oneof(
  { weight: 4, arbitrary: fc.record({ choose: picture }) },
  { weight: 5, arbitrary: fc.record({ finish: fc.nat({ max: 20 }) }) },
  { weight: 1, arbitrary: fc.constant({ cancel: true }) },
);
const history = fc.record({
  strict: fc.boolean(),
  first: picture.map(p => ({ ...p, outcome: 'good' })),
  early: fc.boolean(),
  ops: fc.array(op, { minLength: 1, maxLength: 14 }),
  rest: fc.array(fc.nat({ max: 20 }), { minLength: 8, maxLength: 8 }),
});

const paint = ({ width, height, paint }, salt) => {
  let x = (paint ^ (salt * 0x9e3779b9)) >>> 0;
  return Uint8Array.from({ length: 4 * width * height }, () => {
    x = (Math.imul(x, 1664525) + 1013904223) >>> 0;
    return x >>> 24;
  });
};
const settle = async () => {
  for (let i = 0; i < 2; i++) await new Promise(resolve => setImmediate(resolve));
};

const check = async ({ strict, first, early, ops, rest }) => {
  waiting = [];
  served = { content: [0, ...first.content], type: first.type };
  const pictures = [first];
  let ready = 0;
  let parameters;
  let trouble;
  let handed = [];
  globalThis.__libraryInit = () =>
    new Promise(resolve =>
      later(() => {
        ready++;
        resolve();
      }),
    );
  globalThis.__libraryCall = (bytes, depth, step) => {
    try {
      if (ready === 0) throw new Error('the library is called before it is ready');
      const chosen = pictures[bytes[0]];
      if (!chosen) throw new Error(`the library receives bytes nobody chose: ${bytes}`);
      equalBytes('the bytes handed over', bytes, [bytes[0], ...chosen.content]);
      parameters = parameters || [depth, step];
      equal('the depth', depth, parameters[0]);
      equal('the step', step, parameters[1]);
    } catch (error) {
      trouble = trouble || error;
      throw error;
    }
    const index = bytes[0];
    const { outcome, answer } = pictures[index];
    if (outcome === 'refused') throw new Error('unreachable');
    // the library's memory is used again
    handed.forEach(data => data.fill(0xaa));
    const [a, b] = [paint(answer, 2 * index), paint(answer, 2 * index + 1)];
    handed = [a, b];
    const model = data => ({ get_width: () => answer.width, get_height: () => answer.height, get_data: () => data });
    return { get_source_format: () => answer.format, get_source: () => model(a), get_watermarked: () => model(b) };
  };

  const root = new Root(createElement(App, {}), host, strict);
  let shown = -1; // index of the picture on the page
  let latest = 0; // of the last choice; a cancelled one counts
  const done = new Set(); // choices whose file has been read
  const reads = new Map(); // what is waiting, by the choice it belongs to

  const look = what => {
    if (trouble) throw trouble;
    if (root.error) throw new Error(`${what}: the page breaks: ${root.error.message}`);
    const canvases = root.nodes().filter(n => n.type === 'canvas');
    if (canvases.length === 0 && shown < 0) return;
    equal(`${what}: the number of canvases`, canvases.length, 2);
    const matches = pictures.map((_, i) => i).filter(i => {
      const { answer } = pictures[i];
      return [0, 1].every(k => {
        const { node } = canvases[k];
        const expected = paint(answer, 2 * i + k);
        return node.width === answer.width && node.height === answer.height && expected.every((v, j) => node.pixels[j] === v);
      });
    });
    if (matches.length === 0) throw new Error(`${what}: what the page shows is neither of the pictures with its marked version`);
    const now = matches.includes(shown) ? shown : matches[matches.length - 1];
    if (now < shown) throw new Error(`${what}: picture ${now} replaces picture ${shown}, which was chosen later`);
    if (pictures[now].outcome !== 'good') throw new Error(`${what}: an unusable picture is shown`);
    shown = now;
    const { answer } = pictures[now];
    const text = root.text();
    if (!text.includes(answer.format.toUpperCase())) throw new Error(`${what}: the format ${answer.format} is not named: ${text}`);
    if (!text.includes(`${answer.width}x${answer.height}`)) throw new Error(`${what}: the size ${answer.width}x${answer.height} is not named: ${text}`);
    if (done.has(latest) && pictures[latest].outcome === 'good' && !matches.includes(latest)) {
      throw new Error(`${what}: picture ${now} is shown although picture ${latest} was chosen last and has been read`);
    }
  };
  const go = async which => {
    if (waiting.length === 0) return;
    const [task] = waiting.splice(which % waiting.length, 1);
    task();
    if (reads.has(task)) done.add(reads.get(task));
    await settle();
    look('a pending read or request ends');
  };
  const choose = async files => {
    const input = root.nodes().find(n => n.type === 'input' && n.props.type === 'file');
    if (!input) return false;
    input.node.files = Object.assign([...files], { item: i => files[i] || null });
    const before = waiting.length;
    const event = { type: 'change', target: input.node, currentTarget: input.node, preventDefault: () => undefined, stopPropagation: () => undefined, persist: () => undefined };
    try {
      (input.props.onChange || (() => undefined))(event);
    } catch {
      // reported on the console; the page stays
    }
    await settle();
    if (files.length) waiting.slice(before).forEach(task => reads.set(task, pictures.length - 1));
    return true;
  };

  await settle();
  look('the page opens');
  if (!early) {
    for (let i = 0; i < 40 && waiting.length; i++) await go(0);
    equal('the picture shown after loading', shown, 0);
  }
  for (const o of ops) {
    if (o.choose) {
      const index = pictures.length;
      const before = pictures[index - 1];
      const one = { ...o.choose };
      if (one.again) {
        one.name = before.name;
        one.type = before.type;
        one.lastModified = before.lastModified + (one.again === 2 ? 1 : 0);
        one.content = before.content.map((_, i) => one.content[i] ?? i);
      }
      pictures.push(one);
      if (!(await choose([fileOf({ ...one, content: [index, ...one.content], broken: one.outcome === 'broken' })]))) {
        pictures.pop(); // nothing to choose with while the page loads
        continue;
      }
      latest = index;
      look('a picture is chosen');
    } else if (o.cancel) {
      if (await choose([])) {
        pictures.push({ ...first, outcome: 'none', content: [] });
        latest = pictures.length - 1;
      }
      look('choosing is cancelled');
    } else {
      await go(o.finish);
    }
  }
  for (let i = 0; waiting.length; i++) await go(rest[i % rest.length]);
  if (shown < 0) throw new Error('the page never shows a picture');
  if (pictures[latest].outcome === 'good' && shown !== latest) throw new Error(`picture ${latest}, chosen last, is not shown when all is done, but picture ${shown}`);
};

const chosen = h => h.ops.filter(o => o.choose).length;
await run(
  PROPERTY,
  'histories of opening the page and up to 14 choices, cancelled choices and completions of pending reads in any order, with unreadable and refused files, with and without double mounting; non-trivial: at least two choices',
  ['React, the file reader, requests, canvases and the library are stand-ins which keep their published semantics; a choice counts as read once the first pending read it started has ended'],
  {
    'one-by-one': {
      quick: 400,
      thorough: 6000,
      arbitrary: fc.record({ strict: fc.boolean(), first: picture.map(p => ({ ...p, outcome: 'good' })), list: fc.array(picture, { minLength: 1, maxLength: 6 }) }).map(({ strict, first, list }) => ({
        strict,
        first,
        early: false,
        ops: list.flatMap(p => [{ choose: p }, { finish: 0 }]),
        rest: [0, 0, 0, 0, 0, 0, 0, 0],
      })),
      trivial: h => chosen(h) < 2,
      check,
    },
    'any-order': { quick: 3000, thorough: 60000, arbitrary: history, trivial: h => chosen(h) < 2, check },
  },
);
