From 61fb2f57173809d75eb97ecaa4af5ea9bbe3aaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:38 +0000
Subject: [PATCH 01/30] fix: render falsy states such as 0, "", false and null

---
 src/IgniteElement.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index eb30fdf..c2e67c1 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -74,7 +74,7 @@ export default abstract class IgniteElement<
 	}
 
 	private renderTemplate(): void {
-		if (!this._isActive || !this._currentState) {
+		if (!this._isActive || this._currentState === undefined) {
 			console.warn(`[IgniteElement] State is not initialized`);
 			return;
 		}
-- 
2.43.0


From 7cebd6217e6fc7e89604c1b72615c704757417af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:38 +0000
Subject: [PATCH 02/30] fix: freeze the Redux adapter at the state it was
 stopped in

---
 src/adapters/ReduxAdapter.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 4974a77..279a159 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -99,8 +99,12 @@ const buildAdapter = <
 			return isStopped ? lastKnownState : store.getState();
 		},
 		stop() {
-			cleanupSubscriptions();
+			if (isStopped) {
+				return;
+			}
 			isStopped = true;
+			cleanupSubscriptions();
+			lastKnownState = store.getState();
 		},
 		scope,
 	};
-- 
2.43.0


From 3c1bfb0ac111b1c94b3eed878f56a088fc94b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:38 +0000
Subject: [PATCH 03/30] fix: reject undeclared events that share a name with
 Object.prototype members

---
 src/createComponentFactory.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/createComponentFactory.ts b/src/createComponentFactory.ts
index 776ec5c..fe3d7fa 100644
--- a/src/createComponentFactory.ts
+++ b/src/createComponentFactory.ts
@@ -244,7 +244,8 @@ export function createComponentFactoryWithRenderer<
 	const createEmit = (host: HTMLElement): EmitFromEvents<Events> =>
 		((type: keyof Events & string, detail: unknown) => {
 			if (isDevelopment()) {
-				if (!(type in eventDefinitions)) {
+				// biome-ignore lint/suspicious/noPrototypeBuiltins: supporting older JS targets without Object.hasOwn
+				if (!Object.prototype.hasOwnProperty.call(eventDefinitions, type)) {
 					throw new Error(
 						`[createComponentFactory] Unknown event "${type}". Declare it in the events map before emitting.`,
 					);
-- 
2.43.0


From 51de953317d6c343c2897f6d1cee489c12f62735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:38 +0000
Subject: [PATCH 04/30] fix: do not re-enter the render strategy when state
 changes during a render

---
 src/IgniteElement.ts | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index c2e67c1..99c21c8 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -2,6 +2,8 @@ import type IgniteAdapter from "./IgniteAdapter";
 import { StateScope } from "./IgniteAdapter";
 import type { RenderStrategy } from "./renderers/RenderStrategy";
 
+const MAX_RENDER_PASSES = 100;
+
 export default abstract class IgniteElement<
 	State,
 	Event,
@@ -12,6 +14,8 @@ export default abstract class IgniteElement<
 	private _currentState!: State;
 	private _initialized = false;
 	private _isActive = false;
+	private _isRendering = false;
+	private _renderPending = false;
 	private _unsubscribe: (() => void) | undefined;
 	private _sendListener: ((event: globalThis.Event) => void) | undefined;
 	private readonly strategy: RenderStrategy<View>;
@@ -79,12 +83,35 @@ export default abstract class IgniteElement<
 			return;
 		}
 
-		this.strategy.render(
-			this.renderView({
-				state: this._currentState,
-				send: (event: Event) => this.send(event),
-			}),
-		);
+		// A state change can arrive while the view is being applied (for example from
+		// a child's connectedCallback). Re-entering the strategy mid-update would
+		// corrupt the DOM, so finish the current pass and render again afterwards.
+		if (this._isRendering) {
+			this._renderPending = true;
+			return;
+		}
+
+		this._isRendering = true;
+		try {
+			let passes = 0;
+			do {
+				if (++passes > MAX_RENDER_PASSES) {
+					throw new Error(
+						"[IgniteElement] Maximum update depth exceeded. Rendering keeps changing the state.",
+					);
+				}
+				this._renderPending = false;
+				this.strategy.render(
+					this.renderView({
+						state: this._currentState,
+						send: (event: Event) => this.send(event),
+					}),
+				);
+			} while (this._renderPending && this._isActive);
+		} finally {
+			this._isRendering = false;
+			this._renderPending = false;
+		}
 	}
 
 	protected abstract renderView(props: {
-- 
2.43.0


From b8b4451683617fa27383709596fd2587ad00755b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:20 +0000
Subject: [PATCH 05/30] fix: revive shared adapters after the last element
 disconnected

---
 src/IgniteElement.ts          | 13 +++++++++
 src/IgniteElementFactory.ts   |  9 +++---
 src/adapters/MobxAdapter.ts   | 18 ++++++++----
 src/adapters/ReduxAdapter.ts  | 52 ++++++++++++++++++++---------------
 src/adapters/XStateAdapter.ts | 17 +++++++++---
 5 files changed, 72 insertions(+), 37 deletions(-)

diff --git a/src/IgniteElement.ts b/src/IgniteElement.ts
index 99c21c8..b8ea0ea 100644
--- a/src/IgniteElement.ts
+++ b/src/IgniteElement.ts
@@ -164,6 +164,19 @@ export default abstract class IgniteElement<
 		this._currentState = state;
 	}
 
+	/**
+	 * Points the element at another adapter instance. The subscription is
+	 * re-established by the next `connectedCallback`.
+	 */
+	protected rebindAdapter(adapter: IgniteAdapter<State, Event>): void {
+		if (this._adapter === adapter) {
+			return;
+		}
+
+		this._unsubscribe?.();
+		this._adapter = adapter;
+	}
+
 	private subscribeToAdapter(): void {
 		if (!this._adapter) {
 			return;
diff --git a/src/IgniteElementFactory.ts b/src/IgniteElementFactory.ts
index 4479722..7630dbd 100644
--- a/src/IgniteElementFactory.ts
+++ b/src/IgniteElementFactory.ts
@@ -160,11 +160,7 @@ export default function igniteElementFactory<
 			resolveSharedResources();
 
 			class SharedIgniteComponent extends IgniteElement<State, Event, View> {
-				private readonly additionalArgs: AdditionalRenderArgs<
-					State,
-					Event,
-					RenderArgs
-				>;
+				private additionalArgs: AdditionalRenderArgs<State, Event, RenderArgs>;
 
 				constructor() {
 					const { adapter } = resolveSharedResources();
@@ -174,6 +170,9 @@ export default function igniteElementFactory<
 
 				connectedCallback(): void {
 					sharedInstanceCount += 1;
+					// The shared adapter may have been released since construction.
+					this.rebindAdapter(resolveSharedResources().adapter);
+					this.additionalArgs = resolveSharedAdditionalArgs(this);
 					super.connectedCallback();
 				}
 
diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index 1da9536..ba5d79e 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -42,17 +42,16 @@ type AdapterEntry<State extends object> = {
 	adapter: IgniteAdapter<State, MobxEvent<State>>;
 	snapshot: () => State;
 	store: State;
+	isStopped: () => boolean;
 };
 
 export default function createMobXAdapter<State extends object>(
 	source: (() => State) | State,
 ): MobxAdapterFactory<State> {
 	if (isMobxObservable(source)) {
-		const entry = createAdapterEntryFromStore(
-			source as State,
-			StateScope.Shared,
+		return createSharedFactory(() =>
+			createAdapterEntryFromStore(source as State, StateScope.Shared),
 		);
-		return createSharedFactory(entry);
 	}
 
 	if (typeof source === "function") {
@@ -73,9 +72,15 @@ export default function createMobXAdapter<State extends object>(
 }
 
 function createSharedFactory<State extends object>(
-	entry: AdapterEntry<State>,
+	createEntry: () => AdapterEntry<State>,
 ): MobxAdapterFactory<State> {
-	const factory = (() => entry.adapter) as MobxAdapterFactory<State>;
+	let entry = createEntry();
+	const factory = (() => {
+		if (entry.isStopped()) {
+			entry = createEntry();
+		}
+		return entry.adapter;
+	}) as MobxAdapterFactory<State>;
 	factory.scope = StateScope.Shared;
 	factory.resolveStateSnapshot = () => entry.snapshot();
 	factory.resolveCommandActor = () => entry.store;
@@ -229,5 +234,6 @@ function createAdapterEntryFromStore<State extends object>(
 		adapter,
 		snapshot,
 		store,
+		isStopped: () => isStopped,
 	};
 }
diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 279a159..2189478 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -113,14 +113,26 @@ const buildAdapter = <
 };
 
 function createSharedFactory<State, Event, Snapshot, Actor>(
-	entry: AdapterEntry<State, Event, Snapshot, Actor>,
+	createEntry: () => AdapterEntry<State, Event, Snapshot, Actor>,
 ): AdapterFactory<State, Event, Snapshot, Actor> {
-	const factory = (() => entry.adapter) as AdapterFactory<
-		State,
-		Event,
-		Snapshot,
-		Actor
-	>;
+	const stopped = new WeakSet<IgniteAdapter<State, Event>>();
+	const openEntry = () => {
+		const opened = createEntry();
+		const { stop } = opened.adapter;
+		opened.adapter.stop = () => {
+			stopped.add(opened.adapter);
+			stop();
+		};
+		return opened;
+	};
+
+	let entry = openEntry();
+	const factory = (() => {
+		if (stopped.has(entry.adapter)) {
+			entry = openEntry();
+		}
+		return entry.adapter;
+	}) as AdapterFactory<State, Event, Snapshot, Actor>;
 	factory.scope = StateScope.Shared;
 	factory.resolveStateSnapshot = () => entry.snapshot();
 	factory.resolveCommandActor = () => entry.actor;
@@ -204,15 +216,6 @@ export default function createReduxAdapter<
 		type State = InferStateAndEvent<StoreInstance>["State"];
 		type Event = InferStateAndEvent<StoreInstance>["Event"];
 
-		const adapter = adaptEvent<
-			State,
-			Parameters<StoreInstance["dispatch"]>[0],
-			Event
-		>(
-			buildAdapter(store, StateScope.Shared),
-			(event) => event as Parameters<StoreInstance["dispatch"]>[0],
-		);
-
 		const dispatch: ReduxStoreCommandActor<StoreInstance>["dispatch"] = (
 			event,
 		) =>
@@ -227,18 +230,23 @@ export default function createReduxAdapter<
 			) as ReduxStoreCommandActor<StoreInstance>["subscribe"],
 		};
 
-		const entry: AdapterEntry<
+		return createSharedFactory<
 			State,
 			Event,
 			State,
 			ReduxStoreCommandActor<StoreInstance>
-		> = {
-			adapter,
+		>(() => ({
+			adapter: adaptEvent<
+				State,
+				Parameters<StoreInstance["dispatch"]>[0],
+				Event
+			>(
+				buildAdapter(store, StateScope.Shared),
+				(event) => event as Parameters<StoreInstance["dispatch"]>[0],
+			),
 			snapshot: () => store.getState() as State,
 			actor,
-		};
-
-		return createSharedFactory(entry);
+		}));
 	}
 
 	if (isStoreFactory(source)) {
diff --git a/src/adapters/XStateAdapter.ts b/src/adapters/XStateAdapter.ts
index 07f9d2f..9147f23 100644
--- a/src/adapters/XStateAdapter.ts
+++ b/src/adapters/XStateAdapter.ts
@@ -46,6 +46,7 @@ type AdapterEntry<Machine extends AnyStateMachine> = {
 	snapshot: () => StateFrom<Machine>;
 	actor: XStateActorInstance<Machine>;
 	commandActor: XStateCommandActor<Machine>;
+	isStopped: () => boolean;
 };
 
 export default function createXStateAdapter<Machine extends AnyStateMachine>(
@@ -54,8 +55,9 @@ export default function createXStateAdapter<Machine extends AnyStateMachine>(
 	if (isXStateActor(source)) {
 		const actor = source as XStateActorInstance<Machine>;
 		actor.start();
-		const entry = createAdapterEntry(actor, StateScope.Shared, false);
-		return createSharedFactory(entry);
+		return createSharedFactory(() =>
+			createAdapterEntry(actor, StateScope.Shared, false),
+		);
 	}
 
 	const machine = source as Machine;
@@ -67,9 +69,15 @@ export default function createXStateAdapter<Machine extends AnyStateMachine>(
 }
 
 function createSharedFactory<Machine extends AnyStateMachine>(
-	entry: AdapterEntry<Machine>,
+	createEntry: () => AdapterEntry<Machine>,
 ): XStateAdapterFactory<Machine> {
-	const factory = (() => entry.adapter) as XStateAdapterFactory<Machine>;
+	let entry = createEntry();
+	const factory = (() => {
+		if (entry.isStopped()) {
+			entry = createEntry();
+		}
+		return entry.adapter;
+	}) as XStateAdapterFactory<Machine>;
 	factory.scope = StateScope.Shared;
 	factory.resolveStateSnapshot = () => entry.snapshot();
 	factory.resolveCommandActor = () => entry.commandActor;
@@ -243,5 +251,6 @@ function createAdapterEntry<Machine extends AnyStateMachine>(
 		snapshot,
 		actor,
 		commandActor,
+		isStopped: () => isStopped,
 	};
 }
-- 
2.43.0


From 41f518f3e23814023e8b2e501b21d474388562c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:04 +0000
Subject: [PATCH 06/30] fix: keep renders from adding dependencies to a MobX
 adapter's reaction

Listeners ran inside the tracked autorun, so whatever a render read (for example
another element's store, when a render connects it) re-ran this adapter and
re-rendered its elements from then on.
---
 src/adapters/MobxAdapter.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index ba5d79e..e91edf5 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -1,5 +1,5 @@
 import type { IReactionDisposer } from "mobx";
-import { autorun, toJS } from "mobx";
+import { autorun, toJS, untracked } from "mobx";
 import type IgniteAdapter from "../IgniteAdapter";
 import { StateScope } from "../IgniteAdapter";
 import { isMobxObservable } from "../utils/mobxGuards";
@@ -150,7 +150,8 @@ function createAdapterEntryFromStore<State extends object>(
 		disposer = autorun(() => {
 			const snapshot = cloneState();
 			lastSnapshot = snapshot;
-			notifyListeners(snapshot);
+			// Rendering must not add dependencies to this adapter's reaction.
+			untracked(() => notifyListeners(snapshot));
 		});
 	}
 
-- 
2.43.0


From 95f77ca41a15bbf7c6f9172fbdfe6b7f9b7ad039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:38 +0000
Subject: [PATCH 07/30] fix: drop the previous value when a style property
 becomes null or invalid

---
 src/renderers/jsx/renderer.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index ed642d6..0da1da2 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -418,8 +418,10 @@ function patchStyle(element: HTMLElement, prev: unknown, next: unknown): void {
 		const prevObj = prev as Record<string, unknown>;
 		const nextObj = next as Record<string, unknown>;
 
+		// Clear what changed or went away first, so that a dropped (null) or invalid
+		// value does not leave the previous one behind.
 		for (const key of Object.keys(prevObj)) {
-			if (!(key in nextObj)) {
+			if (prevObj[key] !== nextObj[key]) {
 				style.removeProperty(toKebabCase(key));
 			}
 		}
-- 
2.43.0


From 9baca05a31df032d620dbf40d3632321f4ea6886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:38 +0000
Subject: [PATCH 08/30] fix: reset removed DOM properties to their default
 instead of undefined

Assigning undefined made inputs and textareas show the text "undefined", left
for="undefined" on labels, and threw for progress, meter and contentEditable.
---
 src/renderers/jsx/renderer.ts | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 0da1da2..b8d9cad 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -20,6 +20,14 @@ const CAMEL_CASE_SVG_ATTRS = new Set([
 	"lengthAdjust",
 ]);
 
+// Properties that reflect an attribute of another name.
+const REFLECTED_ATTRS: Record<string, string> = {
+	acceptCharset: "accept-charset",
+	defaultValue: "value",
+	htmlFor: "for",
+	httpEquiv: "http-equiv",
+};
+
 type NormalizedNode =
 	| {
 			kind: "element";
@@ -505,16 +513,31 @@ function removeProp(
 	}
 
 	if (!isSvg && key in element && key !== "list") {
-		// Reset property to undefined to avoid stale values.
-		Reflect.set(element as HTMLElement, key, undefined);
+		// Reset property to its default to avoid stale values.
+		Reflect.set(
+			element as HTMLElement,
+			key,
+			getDefaultPropertyValue(element, key),
+		);
 	}
 
-	const attrName = isSvg ? normalizeSvgAttributeName(key) : key;
+	const attrName = isSvg
+		? normalizeSvgAttributeName(key)
+		: (REFLECTED_ATTRS[key] ?? key);
 	if (element.hasAttribute(attrName)) {
 		element.removeAttribute(attrName);
 	}
 }
 
+function getDefaultPropertyValue(element: Element, key: string): unknown {
+	// Custom elements decide for themselves what an absent property means, and
+	// creating one to look would run its constructor.
+	if (element.localName.includes("-")) {
+		return undefined;
+	}
+	return Reflect.get(document.createElement(element.localName), key);
+}
+
 function applyProperty(
 	element: HTMLElement,
 	key: string,
-- 
2.43.0


From c65234e6cfb26acb5d67da7aa8f2a888716482fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:38 +0000
Subject: [PATCH 09/30] fix: apply the value of a select after its options

---
 src/renderers/jsx/renderer.ts | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index b8d9cad..e4c7f1b 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -247,6 +247,7 @@ function patchNode(
 	}
 
 	const elementNode = domNode as Element & ParentNode;
+	const selectedBefore = getSelectValue(elementNode);
 
 	patchProps(elementNode, oldNode.props, newNode.props);
 
@@ -278,6 +279,14 @@ function patchNode(
 		}
 	}
 
+	// Now that the options are there; a choice the user made is kept otherwise.
+	if (
+		oldNode.props.value !== newNode.props.value ||
+		getSelectValue(elementNode) !== selectedBefore
+	) {
+		applySelectValue(elementNode, newNode.props);
+	}
+
 	return domNode;
 }
 
@@ -299,6 +308,7 @@ function createDomFromNormalized(node: NormalizedNode): ChildNode {
 			for (const child of node.children) {
 				element.appendChild(createDomFromNormalized(child));
 			}
+			applySelectValue(element, node.props);
 			return element;
 		}
 	}
@@ -557,6 +567,26 @@ function applyProperty(
 	}
 }
 
+function getSelectValue(element: Element): string | undefined {
+	return element.localName === "select"
+		? (element as HTMLSelectElement).value
+		: undefined;
+}
+
+// A select only takes a value that one of its options has, so it is applied
+// after the options.
+function applySelectValue(element: Element, props: IgniteJsxProps): void {
+	const { value } = props;
+	if (
+		element.localName === "select" &&
+		value !== false &&
+		value !== null &&
+		value !== undefined
+	) {
+		applyProperty(element as HTMLElement, "value", value);
+	}
+}
+
 function isComposingInput(element: HTMLElement): boolean {
 	return (
 		"isComposing" in element &&
-- 
2.43.0


From 18627f840643ea34d5a9d2100075f353bdf0612e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:38 +0000
Subject: [PATCH 10/30] fix: set the form attribute of form controls, whose
 property is read-only

---
 src/renderers/jsx/renderer.ts | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index e4c7f1b..bf85982 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -20,6 +20,9 @@ const CAMEL_CASE_SVG_ATTRS = new Set([
 	"lengthAdjust",
 ]);
 
+// Properties without a setter, which can only be given as attributes.
+const READ_ONLY_PROPS = new Set(["form", "list"]);
+
 // Properties that reflect an attribute of another name.
 const REFLECTED_ATTRS: Record<string, string> = {
 	acceptCharset: "accept-charset",
@@ -416,7 +419,7 @@ function patchProps(
 			continue;
 		}
 
-		if (!isSvgElement && key in element && key !== "list") {
+		if (!isSvgElement && isWritableProperty(element, key)) {
 			applyProperty(element as HTMLElement, key, next);
 			continue;
 		}
@@ -522,7 +525,7 @@ function removeProp(
 		return;
 	}
 
-	if (!isSvg && key in element && key !== "list") {
+	if (!isSvg && isWritableProperty(element, key)) {
 		// Reset property to its default to avoid stale values.
 		Reflect.set(
 			element as HTMLElement,
@@ -539,6 +542,10 @@ function removeProp(
 	}
 }
 
+function isWritableProperty(element: Element, key: string): boolean {
+	return key in element && !READ_ONLY_PROPS.has(key);
+}
+
 function getDefaultPropertyValue(element: Element, key: string): unknown {
 	// Custom elements decide for themselves what an absent property means, and
 	// creating one to look would run its constructor.
-- 
2.43.0


From f2e2ef7afe1a6f65abf497c2694dd51f4a1a2763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:26:20 +0000
Subject: [PATCH 11/30] fix: keep the case of all camelCase SVG attributes

gradientTransform, stdDeviation, refX, ... were turned into attributes that do
not exist, so the effect they describe was lost.
---
 src/renderers/jsx/renderer.ts | 48 +++++++++++++++++++++++++++++++++++
 1 file changed, 48 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index bf85982..d4323e3 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -18,6 +18,54 @@ const CAMEL_CASE_SVG_ATTRS = new Set([
 	"startOffset",
 	"textLength",
 	"lengthAdjust",
+	"attributeName",
+	"attributeType",
+	"baseFrequency",
+	"calcMode",
+	"diffuseConstant",
+	"edgeMode",
+	"filterUnits",
+	"glyphRef",
+	"gradientTransform",
+	"kernelMatrix",
+	"kernelUnitLength",
+	"keyPoints",
+	"keySplines",
+	"keyTimes",
+	"limitingConeAngle",
+	"markerHeight",
+	"markerUnits",
+	"markerWidth",
+	"maskContentUnits",
+	"maskUnits",
+	"numOctaves",
+	"pathLength",
+	"patternContentUnits",
+	"patternTransform",
+	"pointsAtX",
+	"pointsAtY",
+	"pointsAtZ",
+	"preserveAlpha",
+	"primitiveUnits",
+	"refX",
+	"refY",
+	"repeatCount",
+	"repeatDur",
+	"requiredExtensions",
+	"requiredFeatures",
+	"specularConstant",
+	"specularExponent",
+	"stdDeviation",
+	"stitchTiles",
+	"surfaceScale",
+	"systemLanguage",
+	"tableValues",
+	"targetX",
+	"targetY",
+	"viewTarget",
+	"xChannelSelector",
+	"yChannelSelector",
+	"zoomAndPan",
 ]);
 
 // Properties without a setter, which can only be given as attributes.
-- 
2.43.0


From 3946d312180a83950a65fb399ecf1eccdc55e787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:56 +0000
Subject: [PATCH 12/30] fix: reset removed DOM properties by removing their
 attribute first

Assigning the default throws for properties such as maxLength, whose default
(-1) cannot be set, and undefined threw for contentEditable on custom elements.
---
 src/renderers/jsx/renderer.ts | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index d4323e3..6a07d06 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -573,21 +573,21 @@ function removeProp(
 		return;
 	}
 
-	if (!isSvg && isWritableProperty(element, key)) {
-		// Reset property to its default to avoid stale values.
-		Reflect.set(
-			element as HTMLElement,
-			key,
-			getDefaultPropertyValue(element, key),
-		);
-	}
-
 	const attrName = isSvg
 		? normalizeSvgAttributeName(key)
 		: (REFLECTED_ATTRS[key] ?? key);
 	if (element.hasAttribute(attrName)) {
 		element.removeAttribute(attrName);
 	}
+
+	if (!isSvg && isWritableProperty(element, key)) {
+		// Reset property to its default to avoid stale values. Some defaults,
+		// such as the -1 of maxLength, are only reached by removing the attribute.
+		const initial = getDefaultPropertyValue(element, key);
+		if (Reflect.get(element, key) !== initial) {
+			Reflect.set(element, key, initial);
+		}
+	}
 }
 
 function isWritableProperty(element: Element, key: string): boolean {
@@ -597,10 +597,8 @@ function isWritableProperty(element: Element, key: string): boolean {
 function getDefaultPropertyValue(element: Element, key: string): unknown {
 	// Custom elements decide for themselves what an absent property means, and
 	// creating one to look would run its constructor.
-	if (element.localName.includes("-")) {
-		return undefined;
-	}
-	return Reflect.get(document.createElement(element.localName), key);
+	const tag = element.localName.includes("-") ? "span" : element.localName;
+	return Reflect.get(document.createElement(tag), key);
 }
 
 function applyProperty(
-- 
2.43.0


From c8cc03b47c3d50dd6598016c6f57912b56a9fbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:01 +0000
Subject: [PATCH 13/30] fix: deliver a state once to listeners added while it
 is delivered

Listeners subscribed from inside a delivery got the state on subscribing and,
as members of the set being iterated, a second time from the same delivery.
---
 src/adapters/MobxAdapter.ts   | 7 +++++--
 src/adapters/XStateAdapter.ts | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index e91edf5..a0c8af7 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -138,8 +138,11 @@ function createAdapterEntryFromStore<State extends object>(
 	}
 
 	function notifyListeners(snapshot: State) {
-		for (const listener of listeners) {
-			listener(snapshot);
+		// A listener added meanwhile has the state already, a removed one is done.
+		for (const listener of [...listeners]) {
+			if (listeners.has(listener)) {
+				listener(snapshot);
+			}
 		}
 	}
 
diff --git a/src/adapters/XStateAdapter.ts b/src/adapters/XStateAdapter.ts
index 9147f23..34a15af 100644
--- a/src/adapters/XStateAdapter.ts
+++ b/src/adapters/XStateAdapter.ts
@@ -133,8 +133,11 @@ function createAdapterEntry<Machine extends AnyStateMachine>(
 
 	function notify(snapshot: StateFrom<Machine>) {
 		const state = toExtendedState(snapshot);
-		for (const listener of listeners) {
-			listener(state);
+		// A listener added meanwhile has the state already, a removed one is done.
+		for (const listener of [...listeners]) {
+			if (listeners.has(listener)) {
+				listener(state);
+			}
 		}
 	}
 
-- 
2.43.0


From 6bdb80a60670675a70d056c0bb298c25b3a98679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:01 +0000
Subject: [PATCH 14/30] fix: never call a Redux listener after it was
 unsubscribed

Redux iterates over a snapshot of its listeners, so one unsubscribed (or an
adapter stopped) by an earlier listener of the same dispatch was still called.
---
 src/adapters/ReduxAdapter.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 2189478..782db7b 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -69,7 +69,10 @@ const buildAdapter = <
 
 			listener(store.getState());
 			const storeUnsubscribe = store.subscribe(() => {
-				listener(store.getState());
+				// Redux still calls listeners removed during the running dispatch.
+				if (unsubscribers.has(unsubscribe)) {
+					listener(store.getState());
+				}
 			});
 
 			const unsubscribe = () => {
-- 
2.43.0


From 6eb7f879d5bb6b8433be940ef9744c1fd2f35b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:01 +0000
Subject: [PATCH 15/30] fix: dispose the MobX reaction when stopped during its
 first run

Stopping from the first delivery left the reaction running, and the state of
the stopped adapter followed the store.
---
 src/adapters/MobxAdapter.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index a0c8af7..5a77d2d 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -156,6 +156,10 @@ function createAdapterEntryFromStore<State extends object>(
 			// Rendering must not add dependencies to this adapter's reaction.
 			untracked(() => notifyListeners(snapshot));
 		});
+		if (isStopped) {
+			// Stopped from inside the first run, before there was a disposer.
+			cleanupAutorun();
+		}
 	}
 
 	function cleanupAutorun() {
-- 
2.43.0


From 4ae7769289deab0ae3a94062d8b4330729bd6ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:34 +0000
Subject: [PATCH 16/30] fix: give every adapter subscription its own identity

Subscribing one function twice was one subscription, and unsubscribing a
finished subscription again removed a newer one of the same function.
---
 src/adapters/MobxAdapter.ts   | 5 +++--
 src/adapters/XStateAdapter.ts | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index 5a77d2d..c290979 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -174,7 +174,8 @@ function createAdapterEntryFromStore<State extends object>(
 			}
 
 			const wasRunning = disposer !== null;
-			listeners.add(listener);
+			const observer = (state: State) => listener(state);
+			listeners.add(observer);
 			ensureAutorun();
 
 			if (wasRunning) {
@@ -186,7 +187,7 @@ function createAdapterEntryFromStore<State extends object>(
 					if (isStopped) {
 						return;
 					}
-					listeners.delete(listener);
+					listeners.delete(observer);
 					if (!listeners.size) {
 						cleanupAutorun();
 					}
diff --git a/src/adapters/XStateAdapter.ts b/src/adapters/XStateAdapter.ts
index 34a15af..1c2e857 100644
--- a/src/adapters/XStateAdapter.ts
+++ b/src/adapters/XStateAdapter.ts
@@ -176,7 +176,8 @@ function createAdapterEntry<Machine extends AnyStateMachine>(
 				throw new Error("Adapter is stopped and cannot subscribe.");
 			}
 
-			listeners.add(listener);
+			const observer = (state: ExtendedState<Machine>) => listener(state);
+			listeners.add(observer);
 			ensureSubscription();
 
 			const snapshot = actor.getSnapshot();
@@ -185,7 +186,7 @@ function createAdapterEntry<Machine extends AnyStateMachine>(
 
 			return {
 				unsubscribe: () => {
-					listeners.delete(listener);
+					listeners.delete(observer);
 					if (!listeners.size) {
 						cleanupSubscription();
 					}
-- 
2.43.0


From 798320241a77c0f9cd460bf50bbac3a74de377c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:34 +0000
Subject: [PATCH 17/30] fix: subscribe to the Redux store before delivering the
 first state

A change made by the first delivery was missed, and an adapter stopped by it
kept calling the listener.
---
 src/adapters/ReduxAdapter.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/adapters/ReduxAdapter.ts b/src/adapters/ReduxAdapter.ts
index 782db7b..efecb02 100644
--- a/src/adapters/ReduxAdapter.ts
+++ b/src/adapters/ReduxAdapter.ts
@@ -67,7 +67,6 @@ const buildAdapter = <
 				return { unsubscribe: () => {} };
 			}
 
-			listener(store.getState());
 			const storeUnsubscribe = store.subscribe(() => {
 				// Redux still calls listeners removed during the running dispatch.
 				if (unsubscribers.has(unsubscribe)) {
@@ -83,6 +82,7 @@ const buildAdapter = <
 			};
 
 			unsubscribers.add(unsubscribe);
+			listener(store.getState());
 
 			return {
 				unsubscribe,
-- 
2.43.0


From 5579c9a5928e71e56ac9650e912004699edb923b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:34 +0000
Subject: [PATCH 18/30] fix: keep a single MobX reaction when subscribing from
 the first delivery

A subscription made while the reaction ran for the first time started a second
reaction, so every listener was called twice from then on.
---
 src/adapters/MobxAdapter.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index c290979..7639d47 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -130,6 +130,7 @@ function createAdapterEntryFromStore<State extends object>(
 ): AdapterEntry<State> {
 	const listeners = new Set<(state: State) => void>();
 	let disposer: IReactionDisposer | null = null;
+	let isStarting = false;
 	let isStopped = false;
 	let lastSnapshot: State = cloneState();
 
@@ -147,15 +148,17 @@ function createAdapterEntryFromStore<State extends object>(
 	}
 
 	function ensureAutorun() {
-		if (disposer) {
+		if (disposer || isStarting) {
 			return;
 		}
+		isStarting = true;
 		disposer = autorun(() => {
 			const snapshot = cloneState();
 			lastSnapshot = snapshot;
 			// Rendering must not add dependencies to this adapter's reaction.
 			untracked(() => notifyListeners(snapshot));
 		});
+		isStarting = false;
 		if (isStopped) {
 			// Stopped from inside the first run, before there was a disposer.
 			cleanupAutorun();
@@ -173,7 +176,7 @@ function createAdapterEntryFromStore<State extends object>(
 				throw new Error("Adapter is stopped and cannot subscribe.");
 			}
 
-			const wasRunning = disposer !== null;
+			const wasRunning = disposer !== null || isStarting;
 			const observer = (state: State) => listener(state);
 			listeners.add(observer);
 			ensureAutorun();
-- 
2.43.0


From abf6db3e234cfb315997879d699d5b63e1b045ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:52:23 +0000
Subject: [PATCH 19/30] fix: keep styles that arrive late when lit replaces its
 template

A link appended behind lit's part marker was removed as soon as the
template changed, so roots styled by a later loadIgniteConfig lost
their styles. Insert it ahead of the rendered content instead.
---
 src/injectStyles.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/injectStyles.ts b/src/injectStyles.ts
index 883210d..6d4e1ce 100644
--- a/src/injectStyles.ts
+++ b/src/injectStyles.ts
@@ -88,7 +88,8 @@ export default function injectStyles(shadowRoot: ShadowRoot): void {
 			}
 		}
 
-		shadowRoot.appendChild(linkElement);
+		// Ahead of the rendered content, which renderers may clear or replace.
+		shadowRoot.insertBefore(linkElement, shadowRoot.firstChild);
 		shadowStyles.add(href);
 		debugLog(
 			DebugNamespace.LINK_ELEMENT,
-- 
2.43.0


From b8592d3a3d3cb4f687f848dc6a5c265d7c49969f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:22 +0000
Subject: [PATCH 20/30] fix: keep the new npm token out of the log

The generated token was printed in clear text, so anyone who could read
the log of the refresh job could publish the package.
---
 scripts/refresh-npm-token.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/refresh-npm-token.js b/scripts/refresh-npm-token.js
index d64f4bb..41d690b 100644
--- a/scripts/refresh-npm-token.js
+++ b/scripts/refresh-npm-token.js
@@ -17,7 +17,7 @@ export default async function refreshNpmToken() {
 		const newToken = execSync("npm token create --read-only --publish", {
 			encoding: "utf8",
 		}).trim();
-		console.log("✅ New token generated successfully:", newToken);
+		console.log("✅ New token generated successfully.");
 
 		// Validate environment variables
 		const githubToken = process.env.GITHUB_TOKEN;
-- 
2.43.0


From 67c29082ddc45b5abff0428575961a9436b0385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:45 +0000
Subject: [PATCH 21/30] fix: make the beta release's dry run not publish

changeset publish knows no --dry-run flag and ignores it, so a dry run
published for real. Use pnpm publish --dry-run, which packs only.
---
 scripts/release-beta.mjs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/release-beta.mjs b/scripts/release-beta.mjs
index 7111524..175102a 100644
--- a/scripts/release-beta.mjs
+++ b/scripts/release-beta.mjs
@@ -116,7 +116,10 @@ const main = async () => {
 		console.log("[release:beta] Using provided OTP for npm publish.");
 	}
 
-	const publishCommand = `pnpm changeset publish --tag beta${dryRun ? " --dry-run" : ""}`;
+	// `changeset publish` has no dry-run mode: it ignores the flag and publishes.
+	const publishCommand = dryRun
+		? "pnpm publish --tag beta --dry-run --no-git-checks"
+		: "pnpm changeset publish --tag beta";
 	run(publishCommand, { env: publishEnv });
 
 	console.log(
-- 
2.43.0


From a711db31c86cacf08a0e40dd26d16a7d79d4ffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:45 +0000
Subject: [PATCH 22/30] fix: give configs in dot directories a relative import
 specifier

.config/ignite.config.ts was imported as the bare specifier
".config/ignite.config.ts", which the dev server cannot resolve.
---
 src/plugins/viteIgniteConfigPlugin.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/plugins/viteIgniteConfigPlugin.ts b/src/plugins/viteIgniteConfigPlugin.ts
index 2da021c..2215837 100644
--- a/src/plugins/viteIgniteConfigPlugin.ts
+++ b/src/plugins/viteIgniteConfigPlugin.ts
@@ -124,8 +124,7 @@ function getImportSpecifier(
 	if (root) {
 		const relativePath = relative(root, configPath);
 		if (relativePath && !relativePath.startsWith("..")) {
-			const normalized = toPosixPath(relativePath);
-			return normalized.startsWith(".") ? normalized : `./${normalized}`;
+			return `./${toPosixPath(relativePath)}`;
 		}
 	}
 
-- 
2.43.0


From 1058bec5685d1d286302d0fa85dce702fefecbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:54 +0000
Subject: [PATCH 23/30] fix: load the config in webpack projects without an
 explicit entry

webpack gives plugins { main: {} } when no entry is configured and fills
in its default ./src later, so the loader was never added.
---
 src/plugins/webpackIgniteConfigPlugin.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/plugins/webpackIgniteConfigPlugin.ts b/src/plugins/webpackIgniteConfigPlugin.ts
index 02ae4fc..a70844a 100644
--- a/src/plugins/webpackIgniteConfigPlugin.ts
+++ b/src/plugins/webpackIgniteConfigPlugin.ts
@@ -38,6 +38,9 @@ function normalizeToArray(
 	return [moduleId, ...existing];
 }
 
+/** What webpack builds for an entry that names no modules. */
+const DEFAULT_ENTRY_IMPORT = "./src";
+
 function prependConfig(
 	entry: EntryDescriptor,
 	moduleId: string,
@@ -50,10 +53,15 @@ function prependConfig(
 		return normalizeToArray(entry, moduleId);
 	}
 
-	if (entry && typeof entry === "object" && "import" in entry) {
+	if (entry && typeof entry === "object") {
+		// webpack hands plugins `{ main: {} }` when the config has no entry and only
+		// fills in its default afterwards.
 		return {
 			...entry,
-			import: normalizeToArray(entry.import as string | string[], moduleId),
+			import: normalizeToArray(
+				(entry.import as string | string[] | undefined) ?? DEFAULT_ENTRY_IMPORT,
+				moduleId,
+			),
 		};
 	}
 
-- 
2.43.0


From 26c7f4b5a869efe57049c601ba4c1734042ec1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:07 +0000
Subject: [PATCH 24/30] fix: a beta release whose OTP prompt is aborted no
 longer exits with success

---
 scripts/release-beta.mjs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/scripts/release-beta.mjs b/scripts/release-beta.mjs
index 175102a..92cb2d9 100644
--- a/scripts/release-beta.mjs
+++ b/scripts/release-beta.mjs
@@ -73,13 +73,17 @@ const resolveOtp = async () => {
 	}
 
 	const rl = createInterface({ input: stdin, output: stdout });
-	const answer = (
-		await rl.question(
+	const answer = await new Promise((resolve, reject) => {
+		// question() never settles when the input ends or the prompt is interrupted.
+		rl.once("close", () =>
+			reject(new Error("The one-time password prompt was aborted.")),
+		);
+		rl.question(
 			"[release:beta] Enter npm one-time password (leave blank to skip): ",
-		)
-	).trim();
-	await rl.close();
-	return answer || undefined;
+		).then(resolve, reject);
+	});
+	rl.close();
+	return answer.trim() || undefined;
 };
 
 const main = async () => {
-- 
2.43.0


From 8e841dad2f31d3e5713a067cb7e1b28aff7eeec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:01 +0000
Subject: [PATCH 25/30] fix: keep the fallback content of slot elements

The JSX renderer dropped everything inside <slot>, so a slot nothing was
assigned to showed nothing.
---
 src/renderers/jsx/renderer.ts | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 6a07d06..bad5b96 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -190,7 +190,6 @@ function normalizeChild(
 	}
 
 	const tagName = String(node.type);
-	const isSlot = tagName === "slot";
 	const isSvgRoot = tagName === "svg";
 	const useSvgNamespace = isSvgRoot || namespace === SVG_NAMESPACE;
 	const childNamespace =
@@ -198,11 +197,9 @@ function normalizeChild(
 			? SVG_NAMESPACE
 			: undefined;
 
-	const normalizedChildren = isSlot
-		? []
-		: normalizeChildren(node.props.children).flatMap((child) =>
-				normalizeChild(child, childNamespace),
-			);
+	const normalizedChildren = normalizeChildren(node.props.children).flatMap(
+		(child) => normalizeChild(child, childNamespace),
+	);
 
 	return [
 		{
-- 
2.43.0


From 1e89d7e5b7976836b37951794dfe6f8fa1d39742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:31:09 +0000
Subject: [PATCH 26/30] fix: keep the case of CSS custom properties in style
 objects

{ '--fooBar': 1 } set --foo-bar, which var(--fooBar) does not see.
---
 src/renderers/jsx/renderer.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index bad5b96..b98d311 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -679,6 +679,10 @@ function normalizeSvgAttributeName(name: string): string {
 }
 
 function toKebabCase(value: string): string {
+	// Custom property names are case-sensitive and taken as written.
+	if (value.startsWith("--")) {
+		return value;
+	}
 	return value.replace(/([A-Z])/g, "-$1").toLowerCase();
 }
 
-- 
2.43.0


From 1d79568adbce8165073aa0bec1ff22b000d5848f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:49:48 +0000
Subject: [PATCH 27/30] fix: dropping a prop no longer overrides defaults that
 depend on the element

Removing the value of an option, the value of a checkbox or draggable from a
link left value="" or draggable="false" behind.
---
 src/renderers/jsx/renderer.ts | 35 ++++++++++++++++++++++++++---------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index b98d311..6d57288 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -573,17 +573,30 @@ function removeProp(
 	const attrName = isSvg
 		? normalizeSvgAttributeName(key)
 		: (REFLECTED_ATTRS[key] ?? key);
-	if (element.hasAttribute(attrName)) {
+	const hadAttribute = element.hasAttribute(attrName);
+	if (hadAttribute) {
 		element.removeAttribute(attrName);
 	}
 
-	if (!isSvg && isWritableProperty(element, key)) {
-		// Reset property to its default to avoid stale values. Some defaults,
-		// such as the -1 of maxLength, are only reached by removing the attribute.
-		const initial = getDefaultPropertyValue(element, key);
-		if (Reflect.get(element, key) !== initial) {
-			Reflect.set(element, key, initial);
-		}
+	if (isSvg || !isWritableProperty(element, key)) {
+		return;
+	}
+
+	// A property that was not set, or whose attribute is gone, is at its default
+	// already, which can depend on the rest of the element. Inputs keep what was
+	// entered nevertheless, and custom elements have their own rules.
+	const wasSet = prev !== false && prev !== null && prev !== undefined;
+	const isCustom = element.localName.includes("-");
+	const isInput = element.localName === "input";
+	if (!isCustom && (!wasSet || (hadAttribute && !isInput))) {
+		return;
+	}
+
+	// Reset property to its default to avoid stale values. Some defaults,
+	// such as the -1 of maxLength, are only reached by removing the attribute.
+	const initial = getDefaultPropertyValue(element, key);
+	if (Reflect.get(element, key) !== initial) {
+		Reflect.set(element, key, initial);
 	}
 }
 
@@ -595,7 +608,11 @@ function getDefaultPropertyValue(element: Element, key: string): unknown {
 	// Custom elements decide for themselves what an absent property means, and
 	// creating one to look would run its constructor.
 	const tag = element.localName.includes("-") ? "span" : element.localName;
-	return Reflect.get(document.createElement(tag), key);
+	const pristine = document.createElement(tag);
+	if (pristine instanceof HTMLInputElement) {
+		pristine.type = (element as HTMLInputElement).type;
+	}
+	return Reflect.get(pristine, key);
 }
 
 function applyProperty(
-- 
2.43.0


From 82f4aaa8c43d2601e26e113b3dbcddc645e55d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:07 +0000
Subject: [PATCH 28/30] fix: props equal to an element's default are applied

A progress bar with the value 0 was indeterminate, a list item with the value 0
was not numbered 0, and an option whose value equals its text lost the value
when the text changed.
---
 src/renderers/jsx/renderer.ts | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/renderers/jsx/renderer.ts b/src/renderers/jsx/renderer.ts
index 6d57288..bbc2602 100644
--- a/src/renderers/jsx/renderer.ts
+++ b/src/renderers/jsx/renderer.ts
@@ -620,16 +620,18 @@ function applyProperty(
 	key: string,
 	value: unknown,
 ): void {
-	if (key === "value" || key === "checked") {
-		const current = Reflect.get(element, key);
-		if (current !== value && !(isComposingInput(element) && key === "value")) {
-			Reflect.set(element, key, value);
-		}
+	if (isComposingInput(element) && key === "value") {
 		return;
 	}
 
-	const current = Reflect.get(element, key);
-	if (current !== value) {
+	// State that the user may have changed, and custom elements, are left alone
+	// when they agree. Elsewhere a value equal to the default is set as well:
+	// a progress bar with the value 0 is not one without a value.
+	const hasOwnState =
+		element.localName.includes("-") ||
+		((key === "value" || key === "checked") &&
+			["input", "select", "textarea"].includes(element.localName));
+	if (!hasOwnState || Reflect.get(element, key) !== value) {
 		Reflect.set(element, key, value);
 	}
 }
-- 
2.43.0


From 3d8a078ef313a91b1f6115376c5ec7878a03d714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:04 +0000
Subject: [PATCH 29/30] fix: opt-outs of the host also count when its content
 root exists already

---
 src/renderers/jsx/IgniteJsxRenderStrategy.ts | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/renderers/jsx/IgniteJsxRenderStrategy.ts b/src/renderers/jsx/IgniteJsxRenderStrategy.ts
index e6ad3c0..1590584 100644
--- a/src/renderers/jsx/IgniteJsxRenderStrategy.ts
+++ b/src/renderers/jsx/IgniteJsxRenderStrategy.ts
@@ -43,14 +43,13 @@ class IgniteJsxRenderStrategy implements RenderStrategy<IgniteJsxChild> {
 		);
 		if (existingRoot) {
 			this.contentRoot = existingRoot;
-			return;
+		} else {
+			const root = document.createElement("ignite-jsx-root");
+			root.setAttribute("data-ignite-jsx-root", "");
+			host.appendChild(root);
+			this.contentRoot = root;
 		}
 
-		const root = document.createElement("ignite-jsx-root");
-		root.setAttribute("data-ignite-jsx-root", "");
-		host.appendChild(root);
-		this.contentRoot = root;
-
 		const hostElement = (host as ShadowRoot & { host?: Element }).host;
 		const tagName = hostElement?.tagName?.toLowerCase();
 		const isDenylistedHost = isNoDiffDenylistedTag(tagName);
-- 
2.43.0


From 8d2ef59b935b68e20e33c4d3146aa6aa3076402e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:05:37 +0000
Subject: [PATCH 30/30] fix: a MobX listener that changes the store when first
 told is told of the change

The reaction's first run does not see changes made while it runs, so that the
listener, and whoever subscribed next, was left with the old state.
---
 src/adapters/MobxAdapter.ts | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/src/adapters/MobxAdapter.ts b/src/adapters/MobxAdapter.ts
index 7639d47..a7e4a2a 100644
--- a/src/adapters/MobxAdapter.ts
+++ b/src/adapters/MobxAdapter.ts
@@ -1,5 +1,5 @@
 import type { IReactionDisposer } from "mobx";
-import { autorun, toJS, untracked } from "mobx";
+import { autorun, comparer, toJS, untracked } from "mobx";
 import type IgniteAdapter from "../IgniteAdapter";
 import { StateScope } from "../IgniteAdapter";
 import { isMobxObservable } from "../utils/mobxGuards";
@@ -130,7 +130,6 @@ function createAdapterEntryFromStore<State extends object>(
 ): AdapterEntry<State> {
 	const listeners = new Set<(state: State) => void>();
 	let disposer: IReactionDisposer | null = null;
-	let isStarting = false;
 	let isStopped = false;
 	let lastSnapshot: State = cloneState();
 
@@ -148,21 +147,22 @@ function createAdapterEntryFromStore<State extends object>(
 	}
 
 	function ensureAutorun() {
-		if (disposer || isStarting) {
+		if (disposer) {
 			return;
 		}
-		isStarting = true;
+		let isFirstRun = true;
 		disposer = autorun(() => {
 			const snapshot = cloneState();
+			const isKnown =
+				isFirstRun && comparer.structural(snapshot, lastSnapshot);
+			isFirstRun = false;
 			lastSnapshot = snapshot;
+			if (isKnown) {
+				return;
+			}
 			// Rendering must not add dependencies to this adapter's reaction.
 			untracked(() => notifyListeners(snapshot));
 		});
-		isStarting = false;
-		if (isStopped) {
-			// Stopped from inside the first run, before there was a disposer.
-			cleanupAutorun();
-		}
 	}
 
 	function cleanupAutorun() {
@@ -176,14 +176,13 @@ function createAdapterEntryFromStore<State extends object>(
 				throw new Error("Adapter is stopped and cannot subscribe.");
 			}
 
-			const wasRunning = disposer !== null || isStarting;
+			// Told outside of the reaction, which does not see changes that a listener
+			// makes during its first run.
 			const observer = (state: State) => listener(state);
-			listeners.add(observer);
+			lastSnapshot = cloneState();
 			ensureAutorun();
-
-			if (wasRunning) {
-				listener(lastSnapshot);
-			}
+			listeners.add(observer);
+			listener(lastSnapshot);
 
 			return {
 				unsubscribe: () => {
-- 
2.43.0

