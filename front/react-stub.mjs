// A miniature of React: function components, hooks, lazy loading and host elements, rendered to a
// tree the checks can look at. State is kept by position and key, updates are batched, effects run
// after each commit, children first, and clean up before they run again.
export const Fragment = Symbol('fragment');
export const Suspense = Symbol('suspense');
export const StrictMode = Symbol('strict');
export const Profiler = Symbol('profiler');

export const jsx = (type, props, key) => ({ type, props: props || {}, key: key === undefined ? null : String(key) });
export const jsxs = jsx;
export const jsxDEV = jsx;
export const createElement = (type, config, ...children) => {
  const { key, ...props } = config || {};
  if (children.length === 1) props.children = children[0];
  if (children.length > 1) props.children = children;
  return jsx(type, props, key);
};
export const cloneElement = (element, config, ...children) => createElement(element.type, { ...element.props, key: element.key === null ? undefined : element.key, ...config }, ...children);
export const isValidElement = x => typeof x === 'object' && x !== null && 'type' in x && 'props' in x;
export const Children = {
  toArray: c => [c].flat(Infinity).filter(x => x !== null && x !== undefined && typeof x !== 'boolean'),
  map: (c, f) => Children.toArray(c).map(f),
  forEach: (c, f) => Children.toArray(c).forEach(f),
  count: c => Children.toArray(c).length,
  only: c => c,
};
export const memo = type => ({ special: 'memo', type });
export const forwardRef = render => ({ special: 'forwardRef', render });
export const lazy = load => ({ special: 'lazy', load, state: undefined });
export const createContext = value => {
  const context = { special: 'context', value };
  context.Provider = { special: 'provider', context };
  context.Consumer = { special: 'consumer', context };
  return context;
};
export const createRef = () => ({ current: null });

let current; // instance whose component is running
let position = 0;
let contexts = new Map();

const hook = make => {
  if (!current) throw new Error('Invalid hook call');
  const at = position++;
  const hooks = current.hooks;
  if (at >= hooks.length) hooks.push(make());
  return hooks[at];
};
const same = (a, b) => a && b && a.length === b.length && a.every((x, i) => Object.is(x, b[i]));

export const useReducer = (reducer, initial, init) => {
  const owner = current;
  const h = hook(() => {
    const slot = { state: init ? init(initial) : initial };
    slot.dispatch = action => {
      const next = slot.reducer(slot.state, action);
      if (Object.is(next, slot.state)) return;
      slot.state = next;
      if (!owner.gone) owner.root.schedule();
    };
    return slot;
  });
  h.reducer = reducer;
  return [h.state, h.dispatch];
};
export const useState = initial =>
  useReducer((state, next) => (typeof next === 'function' ? next(state) : next), undefined, () => (typeof initial === 'function' ? initial() : initial));
export const useRef = initial => hook(() => ({ current: initial }));
export const useMemo = (make, deps) => {
  const h = hook(() => ({}));
  if (!h.deps || !same(h.deps, deps)) {
    h.value = make();
    h.deps = deps;
  }
  return h.value;
};
export const useCallback = (f, deps) => useMemo(() => f, deps);
const effect = kind => (run, deps) => {
  const h = hook(() => ({ kind }));
  h.due = !h.deps || !deps || !same(h.deps, deps);
  if (h.due) h.run = run;
  h.deps = deps;
};
export const useEffect = effect('passive');
export const useLayoutEffect = effect('layout');
export const useInsertionEffect = useLayoutEffect;
export const useImperativeHandle = (ref, make, deps) =>
  useLayoutEffect(() => {
    if (typeof ref === 'function') ref(make());
    else if (ref) ref.current = make();
  }, deps);
export const useContext = context => (contexts.has(context) ? contexts.get(context) : context.value);
export const useId = () => hook(() => ({ id: `:${Math.random()}` })).id;
export const useDebugValue = () => undefined;
export const useTransition = () => [false, f => f()];
export const useDeferredValue = x => x;
export const startTransition = f => f();
export const useSyncExternalStore = (subscribe, get) => {
  const [, again] = useReducer(n => n + 1, 0);
  useEffect(() => subscribe(again), [subscribe]);
  return get();
};
export class Component {
  constructor(props) {
    this.props = props;
  }
  setState(change, done) {
    const next = typeof change === 'function' ? change(this.state, this.props) : change;
    this.state = { ...this.state, ...next };
    if (this.instance && !this.instance.gone) this.instance.root.schedule();
    if (done) queueMicrotask(done);
  }
  forceUpdate() {
    this.instance.root.schedule();
  }
}
export const PureComponent = Component;

/// host: { create(type), update(node, before, after), } makes and changes the stand-ins of elements.
export class Root {
  constructor(element, host, strict) {
    Object.assign(this, { element, host, strict, error: null, scheduled: false });
    this.top = { type: null, hooks: [], children: [], root: this };
    this.schedule();
  }
  schedule() {
    if (this.scheduled || this.error) return;
    this.scheduled = true;
    queueMicrotask(() => {
      this.scheduled = false;
      if (this.error) return;
      try {
        this.commits = [];
        this.children(this.top, this.element);
        this.effects();
      } catch (error) {
        // an error while rendering takes the whole page away
        this.error = error;
        try {
          this.unmount(this.top);
        } catch {}
        this.top.children = [];
      }
    });
  }
  mount(type, key) {
    return { type, key, hooks: [], children: [], root: this, fresh: true };
  }
  unmount(instance) {
    instance.gone = true;
    instance.children.forEach(child => this.unmount(child));
    instance.hooks.forEach(h => h.cleanup && h.cleanup());
    if (instance.object && instance.object.componentWillUnmount) instance.object.componentWillUnmount();
    if (instance.node && instance.props.ref) this.attach(instance.props.ref, null);
  }
  attach(ref, value) {
    if (typeof ref === 'function') ref(value);
    else if (ref) ref.current = value;
  }
  // brings the children of an instance in line with what was rendered
  children(parent, rendered) {
    const list = Array.isArray(rendered) ? rendered : [rendered];
    const old = parent.children;
    const used = new Set();
    const out = [];
    list.forEach((element, i) => {
      let [type, key] = [null, null];
      if (typeof element === 'string' || typeof element === 'number') type = 'text';
      else if (Array.isArray(element)) type = Fragment;
      else if (isValidElement(element)) [type, key] = [element.type, element.key];
      else if (element !== null && element !== undefined && typeof element !== 'boolean') throw new Error('Objects are not valid as a React child');
      let match = key !== null ? old.find(x => x.key === key && x.type === type) : old[i] && old[i].key === null && old[i].type === type ? old[i] : undefined;
      if (!match || used.has(match)) match = this.mount(type, key);
      used.add(match);
      out.push([match, element]);
    });
    old.filter(x => !used.has(x)).forEach(x => this.unmount(x));
    parent.children = out.map(x => x[0]);
    out.forEach(([instance, element]) => this.update(instance, element));
  }
  update(instance, element) {
    const type = instance.type;
    if (type === null) return;
    if (type === 'text') {
      instance.text = String(element);
      return;
    }
    if (type === Fragment || type === StrictMode || type === Profiler) {
      this.children(instance, Array.isArray(element) ? element : element.props.children);
      return;
    }
    const before = instance.props;
    instance.props = element.props;
    if (type === Suspense) {
      try {
        if (instance.waiting) {
          instance.children.forEach(child => this.unmount(child));
          instance.children = [];
          instance.waiting = false;
        }
        this.children(instance, element.props.children);
      } catch (thrown) {
        if (!thrown || typeof thrown.then !== 'function') throw thrown;
        instance.children.forEach(child => this.unmount(child));
        instance.children = [];
        instance.waiting = true;
        this.children(instance, element.props.fallback);
        thrown.then(() => this.schedule(), () => this.schedule());
      }
      return;
    }
    if (typeof type === 'string') {
      if (!instance.node) instance.node = this.host.create(type);
      const { children, ref, ...rest } = element.props;
      const { children: _, ref: __, ...earlier } = before || {};
      this.host.update(instance.node, earlier, rest);
      if (!before || before.ref !== ref) this.commits.push(() => this.attach(ref, instance.node));
      this.children(instance, children);
      return;
    }
    let component = type;
    let args = [element.props];
    while (component.special) {
      if (component.special === 'memo') component = component.type;
      else if (component.special === 'forwardRef') {
        args = [element.props, element.props.ref];
        component = component.render;
      } else if (component.special === 'lazy') {
        const holder = component;
        if (!holder.state) {
          holder.state = { promise: holder.load() };
          holder.state.promise.then(module => (holder.state.value = module.default), error => (holder.state.error = error));
        }
        if (holder.state.error) throw holder.state.error;
        if (!holder.state.value) throw holder.state.promise;
        component = holder.state.value;
      } else if (component.special === 'provider') {
        const saved = contexts;
        contexts = new Map(contexts).set(component.context, element.props.value);
        try {
          this.children(instance, element.props.children);
        } finally {
          contexts = saved;
        }
        return;
      } else if (component.special === 'consumer') {
        this.children(instance, element.props.children(useContext(component.context)));
        return;
      } else throw new Error('Element type is invalid');
    }
    if (component.prototype instanceof Component) {
      const mounting = !instance.object;
      if (mounting) {
        instance.object = new component(element.props);
        instance.object.instance = instance;
      }
      const earlier = instance.object.props;
      instance.object.props = element.props;
      const rendered = instance.object.render();
      this.commits.push(() => {
        const o = instance.object;
        if (mounting) o.componentDidMount && o.componentDidMount();
        else o.componentDidUpdate && o.componentDidUpdate(earlier, o.state);
      });
      this.children(instance, rendered);
      return;
    }
    const run = () => {
      const saved = [current, position];
      [current, position] = [instance, 0];
      try {
        return component(...args);
      } finally {
        [current, position] = saved;
      }
    };
    const dues = () => instance.hooks.filter(h => h.due);
    const rendered = run();
    if (this.strict) {
      // the development build renders twice to lay bare impure components
      const due = dues();
      run();
      due.forEach(h => (h.due = true));
    }
    this.children(instance, rendered);
  }
  effects() {
    this.commits.forEach(f => f());
    for (const kind of ['layout', 'passive']) {
      const due = [];
      const visit = instance => {
        instance.children.forEach(visit);
        instance.hooks.forEach(h => h.kind === kind && h.due && due.push([h, instance]));
      };
      visit(this.top);
      due.forEach(([h]) => {
        if (h.cleanup) h.cleanup();
        h.cleanup = undefined;
      });
      const start = h => {
        const cleanup = h.run();
        h.cleanup = typeof cleanup === 'function' ? cleanup : undefined;
        h.due = false;
      };
      due.forEach(([h]) => start(h));
      if (this.strict) {
        // the development build mounts twice
        const fresh = due.filter(([h]) => !h.started);
        fresh.forEach(([h]) => h.cleanup && h.cleanup());
        fresh.forEach(([h]) => start(h));
      }
      due.forEach(([h]) => (h.started = true));
    }
  }
  /// every host element in the order of the document
  nodes() {
    const out = [];
    const visit = instance => {
      if (instance.node) out.push({ node: instance.node, type: instance.type, props: instance.props });
      instance.children.forEach(visit);
    };
    visit(this.top);
    return out;
  }
  text() {
    const visit = instance => (instance.type === 'text' ? instance.text : instance.children.map(visit).join(typeof instance.type === 'string' && instance.type !== 'span' ? '' : ''));
    return visit(this.top);
  }
}

const React = {
  Fragment, Suspense, StrictMode, Profiler, createElement, cloneElement, isValidElement, Children, memo, forwardRef, lazy, createContext, createRef,
  useReducer, useState, useRef, useMemo, useCallback, useEffect, useLayoutEffect, useInsertionEffect, useImperativeHandle, useContext, useId,
  useDebugValue, useTransition, useDeferredValue, startTransition, useSyncExternalStore, Component, PureComponent,
};
export default React;
